From 36a27018fcde5419628384f449bfdc9a7ec2b9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:31 +0000
Subject: [PATCH 01/37] fix: Equation no longer aliases the default_variables
 dict it is given

---
 NRWAL/handlers/equations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 639215c..699b4dd 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -31,9 +31,9 @@ class Equation:
             Equation object. These inputs can still be overwritten at runtime.
         """
 
-        self._default_variables = default_variables
-        if self._default_variables is None:
-            self._default_variables = {}
+        self._default_variables = {}
+        if default_variables is not None:
+            self._default_variables.update(copy.deepcopy(default_variables))
 
         self._str = None
         self._base_name = name
-- 
2.43.0


From 6a978aaccf937afaac5a20608320a4ba57611b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:31 +0000
Subject: [PATCH 02/37] fix: parenthesise negative numbers and modulo
 expressions in Equation math

---
 NRWAL/handlers/equations.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 699b4dd..d548844 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -137,11 +137,13 @@ class Equation:
         if not isinstance(other, Equation):
             other = cls(other)
 
-        arg1 = self._eqn
-        arg2 = other._eqn
-        if not self.is_num(arg1) and not self.is_variable(arg1):
+        arg1 = self._eqn.strip()
+        arg2 = other._eqn.strip()
+        if arg1.startswith('-') or not (self.is_num(arg1)
+                                        or self.is_variable(arg1)):
             arg1 = '({})'.format(arg1)
-        if not self.is_num(arg2) and not self.is_variable(arg2):
+        if arg2.startswith('-') or not (self.is_num(arg2)
+                                        or self.is_variable(arg2)):
             arg2 = '({})'.format(arg2)
 
         new_eqn = '{} {} {}'.format(arg1, operator, arg2)
@@ -359,7 +361,7 @@ class Equation:
         """Check if a string is a variable name without any constants,
         operators, or arithmetic expressions"""
         flags = ('(', ')', '[', ']', '{', '}', '+', '-', '/', '*', '^', ' ',
-                 '<', '>', '=', '\\', '|', '&', '$', '@', '-')
+                 '<', '>', '=', '\\', '|', '&', '$', '@', '%')
         if cls.is_num(s):
             return False
         elif any(f in s for f in flags):
-- 
2.43.0


From 6291067f2cc9b2a14c1f5cfb98b2d935939b6585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:52 +0000
Subject: [PATCH 03/37] fix: parse variable names exactly (commas, comparisons,
 keyword args, names with e)

---
 NRWAL/handlers/equations.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index d548844..ae7e04d 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -389,13 +389,16 @@ class Equation:
     def parse_variables(cls, expression):
         """Parse variable names from an expression string."""
 
-        # finds and replaces all scientific notation numbers
-        re_num = re.compile(r'[0-9]+\.?[0-9]*[eE][-+]?[0-9]*')
-        nums = re.findall(re_num, str(expression))
-        for num in nums:
-            expression = expression.replace(num, '-1')
+        # finds and replaces all scientific notation numbers (but not names
+        # like "co2e" or "x1e5")
+        re_num = r'(?<![\w.])([0-9]+\.?[0-9]*|\.[0-9]+)[eE][-+]?[0-9]+'
+        expression = re.sub(re_num, '-1', str(expression))
 
-        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<')
+        # removes the names of keyword arguments in method calls
+        expression = re.sub(r'([(,]\s*)\w+\s*=(?!=)', r'\1', expression)
+
+        delimiters = ('*', '/', '+', '-', ' ', '(', ')', '[', ']', '>', '<',
+                      '=', '!', '%', '^', '&', '|', '~', ',', '\n', '\t')
         regex_pattern = '|'.join(map(re.escape, delimiters))
         variables = [sub.strip(',')
                      for sub in re.split(regex_pattern, str(expression))
-- 
2.43.0


From e97d00f1c771c9561be1d2abc13a52c650e4db9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:05:52 +0000
Subject: [PATCH 04/37] fix: identify python builtins by the builtins module
 and check every variable

---
 NRWAL/handlers/equations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index ae7e04d..26913bc 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -2,6 +2,7 @@
 """
 Handler objects to interface with single NRWAL equation strings.
 """
+import builtins
 import copy
 import re
 import numpy as np
@@ -354,7 +355,7 @@ class Equation:
     @staticmethod
     def is_method(s):
         """Check if a string is a numpy/pandas or python builtin method"""
-        return bool(s.startswith(('np.', 'pd.')) or s in dir(__builtins__))
+        return bool(s.startswith(('np.', 'pd.')) or s in dir(builtins))
 
     @classmethod
     def is_variable(cls, s):
@@ -473,8 +474,7 @@ class Equation:
         kwargs = self._merge_vars(self._default_variables, kwargs)
 
         missing = [v for v in self.variables
-                   if v not in globals()
-                   and v not in kwargs]
+                   if v not in kwargs]
         if any(missing):
             msg = ('Cannot evaluate "{}", missing the following input args: {}'
                    .format(self, missing))
-- 
2.43.0


From 3aa98c64d94dfd937f1abe423e997529e1860cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 05/37] fix: treat numpy integer scalars as reals like other
 integers

---
 NRWAL/handlers/equations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 26913bc..a6f6f57 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -84,7 +84,7 @@ class Equation:
             if isinstance(v, np.ndarray):
                 if np.issubdtype(v.dtype, np.integer):
                     kwargs[k] = v.astype(np.float32)
-            elif isinstance(v, int):
+            elif isinstance(v, (int, np.integer)):
                 kwargs[k] = float(v)
 
         return kwargs
-- 
2.43.0


From 94ba0442902a9b8152000c29465f73fd94d95e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 06/37] fix: printing an Equation no longer freezes its printed
 form

---
 NRWAL/handlers/equations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index a6f6f57..597f46b 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -274,7 +274,7 @@ class Equation:
     def __str__(self):
         if self._str is None:
             if self.is_num(self._eqn) and not any(self.variables):
-                self._str = str(self._eqn)
+                return str(self._eqn)
 
             else:
                 vars_str = [v for v in self.variables
@@ -290,9 +290,9 @@ class Equation:
                     vars_str += base_str + kw_str
 
                 if self._base_name is None:
-                    self._str = 'Equation({})'.format(vars_str)
+                    return 'Equation({})'.format(vars_str)
                 else:
-                    self._str = '{}({})'.format(self._base_name, vars_str)
+                    return '{}({})'.format(self._base_name, vars_str)
 
         return self._str
 
-- 
2.43.0


From 1975726efd7afaa0fb660eae03566d8905bd8299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 07/37] fix: group references replace whole names only and skip
 sub-groups

---
 NRWAL/handlers/groups.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 6ee945b..8dc82a5 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -750,9 +750,12 @@ class EquationGroup(AbstractGroup):
             for group_key, eqn in group.items():
                 if not isinstance(eqn, Equation):
                     continue
-                for var in [v for v in eqn.variables if v in group]:
+                for var in [v for v in eqn.variables
+                            if isinstance(group.get(v), Equation)]:
                     repl_str = '({})'.format(group[var].full)
-                    new_eqn = eqn.full.replace(var, repl_str)
+                    # only replace whole names, not parts of longer names
+                    name = r'(?<![\w.]){}(?!\w)'.format(re.escape(var))
+                    new_eqn = re.sub(name, repl_str, eqn.full)
                     group[group_key] = eqn = eqn.replace_equation(new_eqn)
                     working = True
 
-- 
2.43.0


From 715084b0118212f60b8cd5fb969fe2656eddc304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 08/37] fix: interpolate only with two neighbours and the flag
 of the requested kind

---
 NRWAL/handlers/groups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 8dc82a5..214722e 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -240,8 +240,9 @@ class AbstractGroup(ABC):
             if eqn_key in out:
                 out = out[eqn_key]
 
-            elif (self._interp_extrap_power or self._interp_extrap_year
-                    and len(nn_eqns) > 1):
+            elif len(nn_eqns) > 1 and (self._interp_extrap_power
+                                       if self.is_power_eqn(eqn_key)
+                                       else self._interp_extrap_year):
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
                 out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
-- 
2.43.0


From 90f97031a5b8a464ac15db8a0ae6e0fdc9fc0305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 09/37] fix: parse power and year names without digits, with
 zero or with repeated suffixes

---
 NRWAL/handlers/groups.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 214722e..27e97fe 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -383,9 +383,9 @@ class AbstractGroup(ABC):
         """
 
         base_str = key
-        power = re.search('_[0-9]*MW$', key, flags=re.IGNORECASE)
+        power = re.search('_[0-9]+MW$', key, flags=re.IGNORECASE)
         if power is not None:
-            base_str = key.replace(power.group(0), '')
+            base_str = key[:power.start()]
             power = float(power.group(0).upper().replace('MW', '').lstrip('_'))
 
         return power, base_str
@@ -431,10 +431,10 @@ class AbstractGroup(ABC):
             group = self._group
 
         req_mw, base_str = self._parse_power(request)
-        if req_mw:
+        if req_mw is not None:
             for key in group.keys():
                 match_mw, match_base = self._parse_power(key)
-                if match_mw and base_str == match_base:
+                if match_mw is not None and base_str == match_base:
                     eqn_keys.append(key)
                     eqn_powers.append(match_mw)
 
@@ -492,7 +492,7 @@ class AbstractGroup(ABC):
         base_str = key
         year = re.search('_[1-2][0-9]{3}$', key, flags=re.IGNORECASE)
         if year is not None:
-            base_str = key.replace(year.group(0), '')
+            base_str = key[:year.start()]
             year = int(year.group(0).lstrip('_'))
 
             # unlikely to be a year before 1800 or after 2200
-- 
2.43.0


From 8841d0b091e72bd49c86013051d2a885fdbe9ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 10/37] fix: key arithmetic associates - and / to the left and
 allows nested parentheses

---
 NRWAL/handlers/groups.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 27e97fe..3599e06 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -168,15 +168,19 @@ class AbstractGroup(ABC):
             assert wkey not in workspace
             pk = key[start_loc:end_loc]
             key = key.replace(pk, wkey)
-            pk = pk.lstrip('(').rstrip(')')
-            workspace[wkey] = obj._getitem(pk, workspace)
+            pk = pk.lstrip('(').rstrip(')').strip()
+            workspace[wkey] = (workspace[pk] if pk in workspace
+                               else obj._getitem(pk, workspace))
 
+        key = key.strip()
         if key in workspace:
             return workspace[key]
 
         for op_str, op_fun in op_map.items():
             if op_str in key:
-                split_keys = key.partition(op_str)
+                # - and / associate to the left so split on the last operator
+                split_keys = (key.rpartition(op_str) if op_str in '-/'
+                              else key.partition(op_str))
                 k1 = split_keys[0].strip()
                 k2 = split_keys[2].strip()
 
-- 
2.43.0


From ee9e6ba094f627c675eee136b1f0778b514333a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 11/37] fix: merged groups and directories do not share members
 with the right operand

---
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/groups.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 4774d09..3779adc 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -294,7 +294,7 @@ class EquationDirectory:
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._eqns.update(other._eqns)
+        out._eqns.update(copy.deepcopy(other._eqns))
         out.set_default_variables(other._default_variables)
 
         return out
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 3599e06..95d41c2 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -109,7 +109,7 @@ class AbstractGroup(ABC):
                         use_nearest_year=self._use_nearest_year)
 
         out = copy.deepcopy(self)
-        out._group.update(other._group)
+        out._group.update(copy.deepcopy(other._group))
         out.set_default_variables(other._default_variables)
 
         return out
-- 
2.43.0


From ce323d7d2d4e9b3b1b88e7742e029267af8afa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:18 +0000
Subject: [PATCH 12/37] fix: VariableGroup objects can be added

---
 NRWAL/handlers/groups.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 95d41c2..a72c494 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -620,7 +620,8 @@ class AbstractGroup(ABC):
         if var_dict is not None:
             self._default_variables.update(copy.deepcopy(var_dict))
             for v in self.values():
-                v.set_default_variables(var_dict)
+                if isinstance(v, (Equation, AbstractGroup)):
+                    v.set_default_variables(var_dict)
 
     @classmethod
     def _r_all_equations(cls, obj):
-- 
2.43.0


From 616ee93a9a5734f5ce1e0b37a434990923458910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:11 +0000
Subject: [PATCH 13/37] fix: a path that continues below an equation raises
 KeyError

---
 NRWAL/handlers/directories.py | 6 ++++++
 NRWAL/handlers/groups.py      | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 3779adc..5fbfd26 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -347,6 +347,12 @@ class EquationDirectory:
 
         eqns = self._eqns
         for ikey in keys:
+            if not hasattr(eqns, 'keys'):
+                msg = ('Could not retrieve equation key "{}", "{}" is not in '
+                       'an equation directory or group'.format(key, ikey))
+                logger.debug(msg)
+                raise KeyError(msg)
+
             try:
                 eqns = eqns[ikey]
             except KeyError:
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index a72c494..a2e4507 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -238,6 +238,12 @@ class AbstractGroup(ABC):
         keys = [str(k) for k in keys]
         out = self._group
         for eqn_key in keys:
+            if not isinstance(out, (dict, AbstractGroup)):
+                msg = ('Could not retrieve equation key "{}", "{}" is not in '
+                       'an equation group'.format(key, eqn_key))
+                logger.error(msg)
+                raise KeyError(msg)
+
             nn_eqns, nn_values, eqn_value = \
                 self._get_nn_eqns_values(eqn_key, keys, out)
 
-- 
2.43.0


From 2184eeee48a79db688c24339678c0aa53045a22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:11 +0000
Subject: [PATCH 14/37] fix: power and year lookup in a group with the same
 name as the request

---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index a2e4507..2bf095e 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -237,7 +237,7 @@ class AbstractGroup(ABC):
 
         keys = [str(k) for k in keys]
         out = self._group
-        for eqn_key in keys:
+        for i, eqn_key in enumerate(keys):
             if not isinstance(out, (dict, AbstractGroup)):
                 msg = ('Could not retrieve equation key "{}", "{}" is not in '
                        'an equation group'.format(key, eqn_key))
@@ -245,7 +245,7 @@ class AbstractGroup(ABC):
                 raise KeyError(msg)
 
             nn_eqns, nn_values, eqn_value = \
-                self._get_nn_eqns_values(eqn_key, keys, out)
+                self._get_nn_eqns_values(eqn_key, keys[i:], out)
 
             if eqn_key in out:
                 out = out[eqn_key]
-- 
2.43.0


From 4fb623472fbfb553b9d49ca93a4b14cf0913aa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:11 +0000
Subject: [PATCH 15/37] fix: variables of one directory do not leak to its
 siblings, forced updates reach all levels

---
 NRWAL/handlers/directories.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index 5fbfd26..d7a07e3 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -540,8 +540,9 @@ class EquationDirectory:
             their locally-defined default variables.
         """
 
-        if var_group is None:
-            var_group = {}
+        # local copy so that variables defined on this level do not leak into
+        # the namespaces of other directories
+        var_group = {} if var_group is None else copy.deepcopy(var_group)
 
         if 'variables' in self.keys() and not force_update:
             # pylint: disable=E1101
@@ -553,7 +554,9 @@ class EquationDirectory:
         self._default_variables.update(copy.deepcopy(var_group))
 
         for v in self.values():
-            if isinstance(v, (EquationDirectory, EquationGroup, Equation)):
+            if isinstance(v, EquationDirectory):
+                v.set_default_variables(var_group, force_update=force_update)
+            elif isinstance(v, (EquationGroup, Equation)):
                 v.set_default_variables(var_group)
 
     @property
-- 
2.43.0


From 732ec7d463052443e036bf70753a4dd853cba06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:39 +0000
Subject: [PATCH 16/37] fix: NrwalConfig does not edit the config dictionary of
 the caller

---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c05990..3c8bbe9 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -326,6 +326,9 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
+        # do not edit the dictionary of the caller
+        config = copy.deepcopy(config)
+
         if 'equation_directory' not in config:
             msg = ('NrwalConfig using default "equation_directory": {}'
                    .format(cls.DEFAULT_DIR))
-- 
2.43.0


From 7ddbd8a72323381bac2c67b70e41ce25471e5004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:39 +0000
Subject: [PATCH 17/37] fix: parse numpy calls after parentheses and with
 operators in their arguments

---
 NRWAL/handlers/config.py     |  9 +++++++--
 NRWAL/utilities/utilities.py | 21 +++++++++------------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 3c8bbe9..28fd5be 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -525,6 +525,10 @@ class NrwalConfig:
             # Parse number as Equation object
             out = Equation(expression, name=name)
 
+        elif find_np_pd_methods(expression) == (0, len(expression)):
+            # single numpy/pandas method, including operators in its arguments
+            out = Equation(expression.replace('^', '**'))
+
         elif Equation.is_equation(expression):
             # Special parsing logic for expression with equation operators
             out = cls._parse_equation(expression, config, eqn_dir, gvars,
@@ -595,14 +599,15 @@ class NrwalConfig:
 
         while '(' in expression:
             start_loc, end_loc = find_np_pd_methods(expression)
-            if start_loc is None:
+            is_method = start_loc is not None
+            if not is_method:
                 start_loc, end_loc = find_parens(expression)[0]
 
             wkey = 'workspace_{}'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
             expression = expression.replace(pk, wkey)
-            if 'np.' not in pk and 'pd.' not in pk:
+            if not is_method:
                 pk = pk.lstrip('(').rstrip(')')
 
             gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
diff --git a/NRWAL/utilities/utilities.py b/NRWAL/utilities/utilities.py
index 229f1f3..734919d 100644
--- a/NRWAL/utilities/utilities.py
+++ b/NRWAL/utilities/utilities.py
@@ -3,7 +3,7 @@
 NRWAL utilities module.
 """
 import os
-import numpy as np
+import re
 
 
 NRWAL_DIR = os.path.dirname(os.path.dirname(os.path.dirname(
@@ -60,18 +60,15 @@ def find_np_pd_methods(s):
     -------
     start / end : int
         Starting and ending indices of the first np. or pd. method. So if
-        s="10 + np.exp(input)" then s[start:end]="np.exp(input)"
+        s="10 + np.exp(input)" then s[start:end]="np.exp(input)". None if there
+        is no method in s.
     """
-    start = 0
-    if 'np.' not in s and 'pd.' not in s:
+    method = re.search(r'(?<![\w.])(np|pd)\.[\w.]+\s*\(', s)
+    if method is None:
         return None, None
-    elif 'np.' in s:
-        start = s.index('np.')
-    elif 'pd.' in s:
-        start = s.index('pd.')
-
-    paren_ind = find_parens(s)
-    np_paren = np.argmin([x[0] for x in paren_ind])
-    end = paren_ind[np_paren][1]
+
+    # the parenthesis that opens the argument list of this method
+    start = method.start()
+    end = dict(find_parens(s))[method.end() - 1]
 
     return start, end
-- 
2.43.0


From f318df82058cff604c0751fd33d8f01abb1569b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:59 +0000
Subject: [PATCH 18/37] fix: config arithmetic follows standard associativity,
 signs and scientific notation

---
 NRWAL/handlers/config.py | 73 ++++++++++++++++++----------------------
 1 file changed, 32 insertions(+), 41 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 28fd5be..a28bebb 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -9,6 +9,7 @@ import numpy as np
 import yaml
 import json
 import os
+import re
 import operator
 from collections import OrderedDict
 
@@ -626,50 +627,28 @@ class NrwalConfig:
         op_map['^'] = operator.pow
 
         out = None
-        expr = expression.replace('**', '^')
+        expr = expression.replace('**', '^').strip()
         for ops, fun in op_map.items():
-            if ops in expr:
+            if ops == '^' and expr.startswith(('-', '+')):
+                # leading sign applies to the result of the power operations
+                out = cls._parse_expression_part(expr[1:].strip(), config,
+                                                 eqn_dir, gvars)
+                out = Equation(-1) * out if expr[0] == '-' else out
+                break
+
+            inds = [i for i, c in enumerate(expr)
+                    if c == ops and cls._is_binary_op(expr, i)]
+            if any(inds):
                 # need to break look on the first found operator because
                 # subsequent operators will be found in the recursive
-                # call to _parse_expression()
-
-                expr_short = expr.replace(' ', '')
-                iop = expr_short.index(ops)
-
-                if ops == '-' and iop > 0 and expr_short[iop - 1] in op_map:
-                    # operation (e.g. * ^ /) on a minus sign (e.g. *-var)
-                    pass
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') == 1:
-                    # ignore leading minus sign (negative number)
-                    out = cls._parse_expression_part(expr[1:], config, eqn_dir,
-                                                     gvars)
-                    out = Equation(-1) * out
-                    break
-
-                elif ops == '-' and expr[0] == ops and expr.count('-') > 1:
-                    # negative variable minus another variable - ignore first
-                    # negative when splitting string
-                    split = expr[1:].partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    v1 = '-' + v1
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
-
-                else:
-                    # normal operation on two numbers / variables
-                    split = expr.partition(ops)
-                    v1, v2 = split[0].strip(), split[2].strip()
-                    out1 = cls._parse_expression_part(v1, config, eqn_dir,
-                                                      gvars)
-                    out2 = cls._parse_expression_part(v2, config, eqn_dir,
-                                                      gvars)
-                    out = fun(out1, out2)
-                    break
+                # call to _parse_expression(). Split on the last operator
+                # (left associative) except for powers (right associative)
+                iop = inds[0] if ops == '^' else inds[-1]
+                v1, v2 = expr[:iop].strip(), expr[iop + 1:].strip()
+                out1 = cls._parse_expression_part(v1, config, eqn_dir, gvars)
+                out2 = cls._parse_expression_part(v2, config, eqn_dir, gvars)
+                out = fun(out1, out2)
+                break
 
         if out is None:
             msg = 'Failed to parse expression: {}'.format(expr)
@@ -678,6 +657,18 @@ class NrwalConfig:
 
         return out
 
+    @staticmethod
+    def _is_binary_op(expr, i):
+        """Check if the operator at index i of an expression is an operation
+        on two operands and not the sign of a number, of a variable, or of the
+        exponent of a number in scientific notation."""
+        before = expr[:i].rstrip()
+        is_exponent = (expr[i] in '+-'
+                       and re.search(r'(?<![\w.])([0-9]+\.?[0-9]*|\.[0-9]+)'
+                                     r'[eE]$', expr[:i]))
+        return (bool(before) and before[-1] not in '+-*/^'
+                and not is_exponent)
+
     @classmethod
     def _parse_expression_part(cls, expr_part, config, eqn_dir, gvars):
         """Parse a part of an expression that contains arithmetic ops
-- 
2.43.0


From 9e25e756964ebe126aed85ee1d953e45060a2cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 19/37] fix: redundant and nested parentheses in config
 expressions

---
 NRWAL/handlers/config.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a28bebb..f54ffe1 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -530,7 +530,11 @@ class NrwalConfig:
             # single numpy/pandas method, including operators in its arguments
             out = Equation(expression.replace('^', '**'))
 
-        elif Equation.is_equation(expression):
+        elif isinstance(gvars.get(expression), Equation):
+            # Parenthetical statement that has already been parsed
+            out = gvars[expression]
+
+        elif Equation.is_equation(expression) or expression.startswith('('):
             # Special parsing logic for expression with equation operators
             out = cls._parse_equation(expression, config, eqn_dir, gvars,
                                       name=name)
@@ -571,7 +575,7 @@ class NrwalConfig:
         Parameters
         ----------
         expression : str
-            A string entry in the config containing operators.
+            A string entry in the config containing operators or parentheses.
         config : dict
             NRWAL config dictionary mapping names (str) to expressions (str)
         eqn_dir : EquationDirectory
@@ -590,8 +594,6 @@ class NrwalConfig:
             NRWAL Equation object representing the input equation
         """
 
-        assert Equation.is_equation(expression)
-
         if any(c in expression for c in ('[', ']', '{', '}')):
             msg = ('Cannot parse config expression with square or curly '
                    'brackets: {}'.format(expression))
@@ -609,11 +611,12 @@ class NrwalConfig:
             pk = expression[start_loc:end_loc]
             expression = expression.replace(pk, wkey)
             if not is_method:
-                pk = pk.lstrip('(').rstrip(')')
+                pk = pk.lstrip('(').rstrip(')').strip()
 
             gvars[wkey] = cls._parse_expression(pk, config, eqn_dir,
                                                 gvars, name=name)
 
+        expression = expression.strip()
         if expression in gvars:
             return gvars[expression]
 
-- 
2.43.0


From 17e2c3f466542db05ae52f4b77eef7c3abfae58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 20/37] fix: a config entry can refer to an equation in an
 aliased directory

---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index f54ffe1..735f48c 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -519,7 +519,8 @@ class NrwalConfig:
             variables input. This Equation is ready to be evaluated.
         """
 
-        if isinstance(expression, (Equation, EquationGroup)):
+        if isinstance(expression, (Equation, EquationGroup,
+                                   EquationDirectory)):
             out = expression
 
         elif Equation.is_num(expression):
-- 
2.43.0


From dc656ca2f62b267c668e97cf816e629113445c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 21/37] fix: config entries that refer to the same equation do
 not share one object

---
 NRWAL/handlers/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 735f48c..b33b70e 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -521,7 +521,7 @@ class NrwalConfig:
 
         if isinstance(expression, (Equation, EquationGroup,
                                    EquationDirectory)):
-            out = expression
+            out = copy.deepcopy(expression)
 
         elif Equation.is_num(expression):
             # Parse number as Equation object
@@ -550,11 +550,11 @@ class NrwalConfig:
             config_key, _, sub_key = expression.partition('::')
             temp = cls._parse_expression(config_key, config, eqn_dir, gvars,
                                          name=name)
-            out = temp[sub_key]
+            out = copy.deepcopy(temp[sub_key])
 
         else:
             try:
-                out = eqn_dir[expression]
+                out = copy.deepcopy(eqn_dir[expression])
             except KeyError:
                 out = Equation(expression)
 
-- 
2.43.0


From f73569ed95f40488e845dac4d5d2ca0ac038070c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 22/37] fix: missing NrwalConfig attributes raise
 AttributeError so configs can be copied and pickled

---
 NRWAL/handlers/config.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index b33b70e..da7a9b5 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -737,7 +737,15 @@ class NrwalConfig:
         out : int | float | np.ndarray | Equation
             Requested data prioritized from the outputs then the config.
         """
-        return self[attr]
+        if attr in ('_outputs', '_config'):
+            # object is not yet initialized, e.g. when copying or unpickling
+            raise AttributeError(attr)
+
+        try:
+            return self[attr]
+        except KeyError as e:
+            msg = 'NrwalConfig has no attribute "{}"'.format(attr)
+            raise AttributeError(msg) from e
 
     def __str__(self):
         s = ['NrwalConfig object with equation directory: "{}"'
-- 
2.43.0


From d5464d13aba39cb9aefac2139ba857da5ca3fc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:19 +0000
Subject: [PATCH 23/37] fix: accept string columns, empty tables and zero
 dimensional arrays as config inputs

---
 NRWAL/handlers/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index da7a9b5..c36829c 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -805,10 +805,10 @@ class NrwalConfig:
                 if isinstance(arg, dict):
                     v = arg[k]
                 elif isinstance(arg, pd.DataFrame):
-                    v = arg[k].values.flatten()
+                    v = arg[k].to_numpy().flatten()
 
                 if isinstance(v, np.ndarray):
-                    if Equation.is_num(v[0]):
+                    if v.ndim > 0 and v.size > 0 and Equation.is_num(v[0]):
                         v = v.astype(np.float32)
                 elif isinstance(v, int):
                     v = float(v)
-- 
2.43.0


From f83b3075dfc1c53895a5c8553f89c08a762f2694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:57 +0000
Subject: [PATCH 24/37] fix: NrwalConfig.evaluate() computes all outputs from
 the current inputs

---
 NRWAL/handlers/config.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index c36829c..5c3f937 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -998,6 +998,9 @@ class NrwalConfig:
             logger.error(msg)
             raise RuntimeError(msg)
 
+        # always compute all outputs from the current inputs
+        self.reset_output()
+
         i = 0
         while not self.solved:
             for k, v in self.items():
-- 
2.43.0


From 1e520a02355c19cc154739c32d8c57ae3a9aef88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:12 +0000
Subject: [PATCH 25/37] fix: config evaluation does not depend on the order of
 the config entries

---
 NRWAL/handlers/config.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 5c3f937..a1b560f 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -919,8 +919,8 @@ class NrwalConfig:
         """
         return [k for k, v in self._config.items()
                 if k not in self._outputs
-                and k not in self.global_variables
-                and isinstance(v, Equation)]
+                and isinstance(v, Equation)
+                and not Equation.is_num(v)]
 
     @property
     def solved(self):
@@ -1001,13 +1001,25 @@ class NrwalConfig:
         # always compute all outputs from the current inputs
         self.reset_output()
 
-        i = 0
+        # other config equations that have to be solved before each equation
+        to_be_solved = self.to_be_solved
+        depends = {k: [x for x in self._config[k].variables
+                       if x in to_be_solved and x != k]
+                   for k in to_be_solved}
+
+        wait = True
         while not self.solved:
+            n_solved = len(self._outputs)
             for k, v in self.items():
                 if (isinstance(v, (EquationGroup, EquationDirectory))
-                        or Equation.is_num(v)):
+                        or Equation.is_num(v) or k in self._outputs):
+                    pass
+                elif wait and any(x not in self._outputs
+                                  for x in depends.get(k, ())):
+                    # solve this in a later iteration
                     pass
                 elif isinstance(v, Equation):
+                    wait = True
                     kwargs = copy.deepcopy(self.global_variables)
                     kwargs.update(self.inputs)
                     kwargs.update(self._outputs)
@@ -1042,11 +1054,8 @@ class NrwalConfig:
                     logger.error(msg)
                     raise TypeError(msg)
 
-            i += 1
-            if i > 100:
-                msg = ('NRWAL compute failed! The following config keys were '
-                       'never solved: {}'.format(self.to_be_solved))
-                logger.error(msg)
-                raise RuntimeError(msg)
+            # if no equation could be solved they depend on each other, so use
+            # the input data for the next one
+            wait = len(self._outputs) > n_solved
 
         return self._outputs
-- 
2.43.0


From 38ef2b6c4f127bbeb46228e6d40b1c44b6707f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:12 +0000
Subject: [PATCH 26/37] fix: refused config inputs do not remain in the inputs

---
 NRWAL/handlers/config.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index a1b560f..d2e7f5c 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -801,6 +801,7 @@ class NrwalConfig:
             elif isinstance(arg, pd.DataFrame):
                 keys = arg.columns.values
 
+            new_inputs = {}
             for k in keys:
                 if isinstance(arg, dict):
                     v = arg[k]
@@ -813,7 +814,10 @@ class NrwalConfig:
                 elif isinstance(v, int):
                     v = float(v)
 
-                self._inputs[k] = v
+                new_inputs[k] = v
+
+            # refused input data does not become part of the inputs
+            self._inputs.update(Equation._check_input_args(new_inputs))
 
         else:
             msg = ('Cannot set inputs as datatype "{}". '
@@ -821,8 +825,6 @@ class NrwalConfig:
             logger.error(msg)
             raise TypeError(msg)
 
-        Equation._check_input_args(self._inputs)
-
     @property
     def outputs(self):
         """Get the outputs dictionary.
-- 
2.43.0


From 1f2b601a56d8d49cb4e6996f798f6edc71c717a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:32:31 +0000
Subject: [PATCH 27/37] fix: time to parse a config expression no longer
 doubles with every pair of parentheses

---
 NRWAL/handlers/config.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index d2e7f5c..5d06354 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -561,10 +561,14 @@ class NrwalConfig:
         if isinstance(out, Equation) and name is not None:
             out._base_name = name
             out._str = None
+
+        # parsed parenthetical statements are not default variables
+        def_vars = {k: v for k, v in gvars.items()
+                    if not isinstance(v, Equation)}
         if isinstance(out, (Equation, EquationGroup)):
-            out.set_default_variables(gvars)
+            out.set_default_variables(def_vars)
         elif isinstance(out, EquationDirectory):
-            out.set_default_variables(gvars, force_update=True)
+            out.set_default_variables(def_vars, force_update=True)
 
         return out
 
-- 
2.43.0


From fc9b969461e799845da84382d60957b32f11325f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:21 +0000
Subject: [PATCH 28/37] fix: keyword argument named like an equation of the
 group is not a reference

---
 NRWAL/handlers/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 2bf095e..b04c4e0 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -766,7 +766,9 @@ class EquationGroup(AbstractGroup):
                             if isinstance(group.get(v), Equation)]:
                     repl_str = '({})'.format(group[var].full)
                     # only replace whole names, not parts of longer names
-                    name = r'(?<![\w.]){}(?!\w)'.format(re.escape(var))
+                    # and not names of keyword arguments
+                    name = (r'(?<![\w.]){}(?!\w|\s*=(?!=))'
+                            .format(re.escape(var)))
                     new_eqn = re.sub(name, repl_str, eqn.full)
                     group[group_key] = eqn = eqn.replace_equation(new_eqn)
                     working = True
-- 
2.43.0


From 78600c1562457699c7781d09b68331ce6c0b6a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:23 +0000
Subject: [PATCH 29/37] fix: replace only the located numpy call or parentheses
 in a config expression

Every other occurrence of the same text was replaced too, also inside the
arguments of another numpy call, e.g. np.tanh(x) + np.exp(np.tanh(x)).
---
 NRWAL/handlers/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 5d06354..b7bce11 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -614,7 +614,8 @@ class NrwalConfig:
             wkey = 'workspace_{}'.format(1 + len(gvars))
             assert wkey not in gvars
             pk = expression[start_loc:end_loc]
-            expression = expression.replace(pk, wkey)
+            expression = (expression[:start_loc] + wkey
+                          + expression[end_loc:])
             if not is_method:
                 pk = pk.lstrip('(').rstrip(')').strip()
 
-- 
2.43.0


From 4980fd7108a8ab7dd97f39fa244b5fcb658cae2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:17:49 +0000
Subject: [PATCH 30/37] fix: combined equation keeps the default variables that
 only its left operand uses

---
 NRWAL/handlers/equations.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 597f46b..9e20547 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -151,6 +151,16 @@ class Equation:
         new_str = '({} {} {})'.format(self, operator, other)
         def_vars = copy.deepcopy(self._default_variables)
         def_vars.update(other._default_variables)
+
+        # different default values of variables that only this equation uses
+        # are not replaced
+        diff = [k for k, v in self._default_variables.items()
+                if def_vars[k] != v]
+        if any(diff):
+            names = set(self.variables) - set(other.variables)
+            def_vars.update({k: self._default_variables[k]
+                             for k in names.intersection(diff)})
+
         out = cls(new_eqn, default_variables=def_vars)
         out._str = new_str
         return out
-- 
2.43.0


From 1d39f2248c3932b6bed66bf4d165baeb9ef24a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:14 +0000
Subject: [PATCH 31/37] fix: retrieval by arithmetic that starts with a value
 of a variables file

---
 NRWAL/handlers/groups.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index b04c4e0..382c185 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -192,6 +192,10 @@ class AbstractGroup(ABC):
                 if out2 is None:
                     out2 = obj._getitem(k2, workspace)
 
+                if isinstance(out1, float):
+                    # value from a VariableGroup
+                    out1 = Equation(out1)
+
                 return op_fun(out1, out2)
 
     def _getitem(self, key, workspace):
-- 
2.43.0


From 1cfc261251e9b88b9217f452a3dd823f018207a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:46 +0000
Subject: [PATCH 32/37] fix: config expressions with values of variables files

---
 NRWAL/handlers/config.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index b7bce11..fc893e5 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -15,7 +15,7 @@ from collections import OrderedDict
 
 from NRWAL.utilities.utilities import NRWAL_ANALYSIS_DIR, find_np_pd_methods
 from NRWAL.handlers.equations import Equation
-from NRWAL.handlers.groups import EquationGroup
+from NRWAL.handlers.groups import EquationGroup, VariableGroup
 from NRWAL.handlers.directories import EquationDirectory
 from NRWAL.utilities.utilities import find_parens
 
@@ -519,7 +519,7 @@ class NrwalConfig:
             variables input. This Equation is ready to be evaluated.
         """
 
-        if isinstance(expression, (Equation, EquationGroup,
+        if isinstance(expression, (Equation, EquationGroup, VariableGroup,
                                    EquationDirectory)):
             out = copy.deepcopy(expression)
 
@@ -558,6 +558,10 @@ class NrwalConfig:
             except KeyError:
                 out = Equation(expression)
 
+        if isinstance(out, float):
+            # value from a VariableGroup
+            out = Equation(out)
+
         if isinstance(out, Equation) and name is not None:
             out._base_name = name
             out._str = None
@@ -1018,7 +1022,8 @@ class NrwalConfig:
         while not self.solved:
             n_solved = len(self._outputs)
             for k, v in self.items():
-                if (isinstance(v, (EquationGroup, EquationDirectory))
+                if (isinstance(v, (EquationGroup, VariableGroup,
+                                   EquationDirectory))
                         or Equation.is_num(v) or k in self._outputs):
                     pass
                 elif wait and any(x not in self._outputs
-- 
2.43.0


From 1c98d60bcea297c4dea3c9672ae24ddff833c4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:47 +0000
Subject: [PATCH 33/37] fix: power and year lookups of values in variables
 files

---
 NRWAL/handlers/groups.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 382c185..8de526d 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -260,10 +260,10 @@ class AbstractGroup(ABC):
                 x1, x3 = nn_values[0:2]
                 y1, y3 = nn_eqns[0:2]
                 out = (y3 - y1) * (eqn_value - x1) / (x3 - x1) + y1
-                if not any(out.variables):
+                if isinstance(out, Equation) and not any(out.variables):
                     out = Equation(out.eval())
 
-            elif any(nn_eqns):
+            elif len(nn_eqns) > 0:
                 out = nn_eqns[0]
 
             else:
-- 
2.43.0


From e3d005be1c177809ace0411745db88b924e9cac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:01 +0000
Subject: [PATCH 34/37] fix: equations with array default variables can be
 combined

---
 NRWAL/handlers/equations.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/NRWAL/handlers/equations.py b/NRWAL/handlers/equations.py
index 9e20547..c8b86ac 100644
--- a/NRWAL/handlers/equations.py
+++ b/NRWAL/handlers/equations.py
@@ -152,14 +152,14 @@ class Equation:
         def_vars = copy.deepcopy(self._default_variables)
         def_vars.update(other._default_variables)
 
-        # different default values of variables that only this equation uses
-        # are not replaced
-        diff = [k for k, v in self._default_variables.items()
-                if def_vars[k] != v]
-        if any(diff):
-            names = set(self.variables) - set(other.variables)
-            def_vars.update({k: self._default_variables[k]
-                             for k in names.intersection(diff)})
+        # default values of variables that only this equation uses are not
+        # replaced
+        both = set(self._default_variables) & set(other._default_variables)
+        if any(both):
+            names = both.intersection(self.variables)
+            names = names.difference(other.variables)
+            def_vars.update({k: copy.deepcopy(self._default_variables[k])
+                             for k in names})
 
         out = cls(new_eqn, default_variables=def_vars)
         out._str = new_str
-- 
2.43.0


From ce9499c71ec0e220b1fafc64d5576a787d8faacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:20 +0000
Subject: [PATCH 35/37] fix: tail of zero lines is empty and not the whole text

---
 NRWAL/handlers/config.py      | 2 +-
 NRWAL/handlers/directories.py | 2 +-
 NRWAL/handlers/groups.py      | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index fc893e5..5c9bcda 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -776,7 +776,7 @@ class NrwalConfig:
 
     def tail(self, n=5):
         """Return the last n lines of the config string representation"""
-        return '\n'.join(str(self).split('\n')[-1 * n:])
+        return '\n'.join(str(self).split('\n')[-1 * n:] if n else [])
 
     @property
     def inputs(self):
diff --git a/NRWAL/handlers/directories.py b/NRWAL/handlers/directories.py
index d7a07e3..d1704ca 100644
--- a/NRWAL/handlers/directories.py
+++ b/NRWAL/handlers/directories.py
@@ -520,7 +520,7 @@ class EquationDirectory:
 
     def tail(self, n=5):
         """Return the last n lines of the directory string representation"""
-        return '\n'.join(str(self).split('\n')[-1 * n:])
+        return '\n'.join(str(self).split('\n')[-1 * n:] if n else [])
 
     def set_default_variables(self, var_group=None, force_update=False):
         """Set default variables available to this object and all
diff --git a/NRWAL/handlers/groups.py b/NRWAL/handlers/groups.py
index 8de526d..0b9e8ad 100644
--- a/NRWAL/handlers/groups.py
+++ b/NRWAL/handlers/groups.py
@@ -665,7 +665,7 @@ class AbstractGroup(ABC):
 
     def tail(self, n=5):
         """Return the last n lines of the group string representation"""
-        return '\n'.join(str(self).split('\n')[-1 * n:])
+        return '\n'.join(str(self).split('\n')[-1 * n:] if n else [])
 
     @property
     def all_equations(self):
-- 
2.43.0


From 1ff9ba40e27296b1a0762e3097387e465a970bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:32 +0000
Subject: [PATCH 36/37] fix: keep config inputs independent of the caller's
 arrays

---
 NRWAL/handlers/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 5c9bcda..1a9bac1 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -818,6 +818,8 @@ class NrwalConfig:
                     v = arg[k].to_numpy().flatten()
 
                 if isinstance(v, np.ndarray):
+                    # independent of later changes to the caller's array
+                    v = v.copy()
                     if v.ndim > 0 and v.size > 0 and Equation.is_num(v[0]):
                         v = v.astype(np.float32)
                 elif isinstance(v, int):
-- 
2.43.0


From d7d9f98e28d0bf59559010038e5ded7f1cc56fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:43 +0000
Subject: [PATCH 37/37] fix: visit each entry once when looking for circular
 references

The walk followed every way through the references, so that construction of
a config with many numpy calls that use each other took exponential time.
---
 NRWAL/handlers/config.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/NRWAL/handlers/config.py b/NRWAL/handlers/config.py
index 1a9bac1..19effbd 100644
--- a/NRWAL/handlers/config.py
+++ b/NRWAL/handlers/config.py
@@ -392,7 +392,7 @@ class NrwalConfig:
 
     @classmethod
     def _check_circ_ref(cls, orig_name, expression, config, current_name=None,
-                        msg=None):
+                        msg=None, checked=None):
         """Check the config for circular variable references that would result
         in a recursion error.
 
@@ -410,6 +410,9 @@ class NrwalConfig:
             The current equation name in the recursive search.
         msg : str
             The error message to be printed if a circular reference is found.
+        checked : set
+            Names of the config entries already visited from orig_name, each
+            one has to be visited only once.
         """
 
         if current_name is None:
@@ -429,10 +432,13 @@ class NrwalConfig:
             logger.error(msg)
             raise RuntimeError(msg)
 
+        checked = set() if checked is None else checked
         for var in all_vars:
-            if var in config:
+            if var in config and var not in checked:
+                checked.add(var)
                 cls._check_circ_ref(orig_name, config[var], config,
-                                    current_name=var, msg=msg)
+                                    current_name=var, msg=msg,
+                                    checked=checked)
 
     @classmethod
     def _parse_config(cls, config, eqn_dir, gvars):
-- 
2.43.0

