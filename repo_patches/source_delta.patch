From 0ffefe13939c364326b80a5661b4ee19416cd741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 01/42] fix: don't link `refinery gas` inputs to the suppliers
 of another product

---
 ocelot/transformations/locations/linking.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index 2167175..a12febc 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -147,7 +147,8 @@ def link_consumers_to_markets(data):
                 candidates = markets_mapping[exc['name']]
             except KeyError:
                 if exc['name'] == 'refinery gas':
-                    pass
+                    # Known to have no market, leave unlinked
+                    continue
                 else:
                     raise MissingSupplier("No markets found for product {}".format(exc['name']))
 
-- 
2.43.0


From 9febd2406e37d5b7c7d7110a39f605066d54f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 02/42] fix: delete unlinked exchanges instead of only logging
 them

---
 ocelot/transformations/locations/linking.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/linking.py b/ocelot/transformations/locations/linking.py
index a12febc..55cc38b 100644
--- a/ocelot/transformations/locations/linking.py
+++ b/ocelot/transformations/locations/linking.py
@@ -243,7 +243,7 @@ def log_and_delete_unlinked_exchanges(data):
                 'type': 'table element',
                 'data': (ds['name'], exc['name'], exc['amount'])
             })
-        ds['exchanges'] = [exc for exc in ds['exchanges'] if ds.get('code')]
+        ds['exchanges'] = [exc for exc in ds['exchanges'] if not unlinked(exc)]
     return data
 
 log_and_delete_unlinked_exchanges.__table__ = {
-- 
2.43.0


From 80c12ebed926bc86cb35bd10d0b073ff208de128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 03/42] fix: allow nested collections in a configuration list

---
 ocelot/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/model.py b/ocelot/model.py
index 0d487f9..3aff193 100644
--- a/ocelot/model.py
+++ b/ocelot/model.py
@@ -37,7 +37,7 @@ def apply_transformation(function, counter, data, output_dir, save_strategy, fol
         and not isinstance(function, wrapt.FunctionWrapper)):
         for obj in function:
             data = apply_transformation(obj, counter, data,
-                                        output_dir, save_strategy)
+                                        output_dir, save_strategy, follow)
         return data
     else:
         metadata = get_function_meta(function)
-- 
2.43.0


From f56e9ab34c505e08f5ec5ff60553856db5003e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 04/42] fix: don't write log messages of a model run to the
 logs of earlier runs

---
 ocelot/logger.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ocelot/logger.py b/ocelot/logger.py
index fec867b..fce1d2b 100644
--- a/ocelot/logger.py
+++ b/ocelot/logger.py
@@ -40,9 +40,18 @@ class DatasetJsonFormatter(logging.Formatter):
         return json.dumps(message_dict, ensure_ascii=False)
 
 
+def remove_previous_handlers(logger, formatter_class):
+    """Stop writing to the log files of previous model runs"""
+    for handler in list(logger.handlers):
+        if isinstance(handler.formatter, formatter_class):
+            logger.removeHandler(handler)
+            handler.close()
+
+
 def create_log(output_dir):
     logger = logging.getLogger('ocelot')
     logger.propagate = False
+    remove_previous_handlers(logger, JsonFormatter)
     formatter = JsonFormatter()
     filepath = os.path.join(output_dir, "report.log.json")
     handler = logging.FileHandler(filepath, encoding='utf-8')
@@ -55,6 +64,7 @@ def create_log(output_dir):
 def create_detailed_log(output_dir):
     logger = logging.getLogger('ocelot-detailed')
     logger.propagate = False
+    remove_previous_handlers(logger, DatasetJsonFormatter)
     formatter = DatasetJsonFormatter()
     filepath = os.path.join(output_dir, "detailed.log.json")
     handler = logging.FileHandler(filepath, encoding='utf-8')
-- 
2.43.0


From ebbf45229cc82110ce0baed6a559ff005ce2a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 05/42] fix: evaluate formulas which divide by zero to zero
 instead of None

---
 .../parameterization/recalculation.py              | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index 780f90a..71358f1 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -25,6 +25,16 @@ def extract_named_parameters(dataset):
             if 'variable' in exc}
 
 
+def evaluate_formula(interpreter, formula):
+    """Evaluate ``formula``.
+
+    ``asteval`` doesn't raise errors, but stores them. We need to know about division by zero, as ``None`` would be returned in this case."""
+    value = interpreter(formula)
+    if any(error.exc is ZeroDivisionError for error in interpreter.error):
+        raise ZeroDivisionError(formula)
+    return value
+
+
 class TolerantParameterSet(ParameterSet):
     """Subclass of ParameterSet that sets flawed formulas to zero"""
     def evaluate(self):
@@ -36,7 +46,7 @@ class TolerantParameterSet(ParameterSet):
             #     interpreter.symtable[key] = self.global_params[key]
             if self.params[key].get('formula'):
                 try:
-                    value = interpreter(self.params[key]['formula'])
+                    value = evaluate_formula(interpreter, self.params[key]['formula'])
                 except ZeroDivisionError:
                     # Grumble grumble...
                     value = 0
@@ -67,7 +77,7 @@ def recalculate(dataset):
     for exc in iterate_all_parameters(dataset):
         if 'formula' in exc:
             try:
-                exc['amount'] = interpreter(exc['formula'])
+                exc['amount'] = evaluate_formula(interpreter, exc['formula'])
             except ZeroDivisionError:
                 exc['amount'] = 0
         elif 'variable' in exc:
-- 
2.43.0


From 3b771e262b07b1912f2b92c7af066420a2f8a75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 06/42] fix: only replace complete reserved words in formulas,
 not parts of longer names

---
 .../parameterization/python_compatibility.py   | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 7d15e1f..d3d5d0b 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -27,12 +27,9 @@ RESERVED_WORDS = {
     "pass", "raise", "return", "True", "try", "while", "with", "yield"
 }
 
-RESERVED_WORDS_RE = [(word, re.compile("(^|[^a-zA-Z_]){}($|[^a-zA-Z_])".format(word)))
+RESERVED_WORDS_RE = [(word, re.compile(r"(?<!\w){}(?!\w)".format(word)))
                      for word in RESERVED_WORDS]
 
-RESERVED_WORDS_STARTING = [(word, re.compile("{}[^a-zA-Z_]".format(word)))
-                           for word in RESERVED_WORDS]
-
 IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)\)")
 IF_BEGINNING = re.compile("if\(")
 COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
@@ -192,19 +189,20 @@ def get_ast_names(string):
 
 
 def check_and_fix_formula(ds, string):
-    """Check if the formula is usable in ``asteval``.
+    r"""Check if the formula is usable in ``asteval``.
 
     First, check to make sure that the formula doesn't start with a reserved word that would be valid python but wouldn't produce meaningful results. For example, ``yield - fair * knight`` will be parsable, but yield is treated as a command instead of a variable.
 
-    Next, we check if the formula is parsable. If it isn't, we search for reserved words in the formula, using a regular expression like ``[^a-zA-Z_]?yield[^a-zA-Z_]?``. The regular expression is necessary to avoid find reserved words inside longer variable names like ``yield_management``, which are valid and should be left alone.
+    Next, we check if the formula is parsable. If it isn't, we search for reserved words in the formula, using a regular expression like ``(?<!\w)yield(?!\w)``. The regular expression is necessary to avoid find reserved words inside longer variable names like ``yield_management``, which are valid and should be left alone.
 
     In either case, if reserved words are found, they are replaced with their uppercase equivalents.
 
     If the formula can't be repaired, it is returned in its original form; otherwise the new formula is returned."""
     updated = deepcopy(string)
-    for word, reg_exp in RESERVED_WORDS_STARTING:
-        if reg_exp.match(updated):
-            updated = updated.replace(word, word.upper())
+    for word, reg_exp in RESERVED_WORDS_RE:
+        # ``yield`` is parsable anywhere an expression can start, e.g. ``2 * (yield - 1)``
+        if reg_exp.match(updated) or (word == 'yield' and reg_exp.search(updated)):
+            updated = reg_exp.sub(word.upper(), updated)
             logger.info({
                 'type': 'table element',
                 'data': (ds['name'], word, string)
@@ -217,7 +215,7 @@ def check_and_fix_formula(ds, string):
         found = []
         for word, reg_exp in RESERVED_WORDS_RE:
             if reg_exp.search(updated):
-                updated = updated.replace(word, word.upper())
+                updated = reg_exp.sub(word.upper(), updated)
                 found.append(word)
         try:
             get_ast_names(updated)
-- 
2.43.0


From c6cdea008b5e5d8c44086f20dda3196fd8e80854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 07/42] fix: handle `power` formulas with variables or followed
 by parentheses

---
 .../parameterization/python_compatibility.py        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index d3d5d0b..f581e11 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -34,7 +34,7 @@ IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)
 IF_BEGINNING = re.compile("if\(")
 COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
 
-POWER_RE = re.compile("power\((?P<base>[^;]+);(?P<exponent>[^;]+)\)")
+POWER_RE = re.compile(r"power\((?P<base>[^;()]+);(?P<exponent>[^;()]+)\)")
 
 
 def find_if_boundaries(string):
@@ -113,12 +113,19 @@ def find_if_clause(ds, string):
         return string
 
 
+def as_number(string):
+    """Convert ``string`` to a float if possible, as e.g. ``-05`` is not valid in python"""
+    try:
+        return float(string)
+    except ValueError:
+        return string
+
+
 def find_power_clause(ds, string):
     while POWER_RE.search(string):
         match = POWER_RE.search(string)
         match_string = match.group(0)
-        as_numbers = [float(x) for x in match.groups()]
-        replacement = "(({})**({}))".format(*as_numbers)
+        replacement = "(({})**({}))".format(*[as_number(x) for x in match.groups()])
         logger.info({
             'type': 'table element',
             'data': (ds['name'], '', match_string, replacement)
-- 
2.43.0


From cafefc6c3a5b453ffa42f1014149a4004e8f060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 08/42] fix: don't change variable names when replacing percent
 signs

---
 .../transformations/parameterization/python_compatibility.py  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index f581e11..c2ffc26 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -34,6 +34,8 @@ IF_RE = re.compile("if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>[^;)]+)
 IF_BEGINNING = re.compile("if\(")
 COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>.+)\)$")
 
+PERCENT_VARIABLE_RE = re.compile(r"(?<![\w.])([^\W\d]\w*)%")
+
 POWER_RE = re.compile(r"power\((?P<base>[^;()]+);(?P<exponent>[^;()]+)\)")
 
 
@@ -140,6 +142,8 @@ def fix_math_formulas(data):
         for exc in iterate_all_parameters(ds):
             if 'formula' not in exc:
                 continue
+            # ``foo%`` would become ``fooe-2``, i.e. the difference ``fooe - 2``
+            exc['formula'] = PERCENT_VARIABLE_RE.sub(r"(\1*1e-2)", exc['formula'])
             for bad, good in KNOWN_MATH_SUBSTITUTIONS:
                 if bad in exc['formula']:
                     logger.info({
-- 
2.43.0


From c24332d162d4e4c83ec64e5d52d7cafb051e1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 09/42] fix: keep constrained market datasets during cutoff
 allocation

---
 ocelot/transformations/cutoff/allocation.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/cutoff/allocation.py b/ocelot/transformations/cutoff/allocation.py
index 465a591..b711b79 100644
--- a/ocelot/transformations/cutoff/allocation.py
+++ b/ocelot/transformations/cutoff/allocation.py
@@ -30,6 +30,15 @@ def no_allocation(dataset):
     return [dataset]
 
 
+def allocate_constrained_market(dataset):
+    """Zero out the conditional exchanges of a constrained market.
+
+    See ``constrained_market_allocation``. Returns a list, like all allocation functions."""
+    return [constrained_market_allocation(dataset)]
+
+allocate_constrained_market.__table__ = constrained_market_allocation.__table__
+
+
 def missing_formulas(dataset):
     """Return boolean of whether each technosphere and biosphere are parameterized.
 
@@ -150,7 +159,7 @@ ALLOCATION_METHODS = (
     ("market group", no_allocation),
     ("unconstrained market", no_allocation),
     ("economic", economic_allocation),
-    ("constrained market", constrained_market_allocation),
+    ("constrained market", allocate_constrained_market),
     ("recycling", recycling_allocation),
     # ("recycling squared", recycling_2_allocation),
     ("waste treatment", waste_treatment_allocation),
-- 
2.43.0


From cd91ff797fc203341965efbfa24799bc9b890b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 10/42] fix: rescale all parameters of normal distributions,
 including for zero amounts

---
 ocelot/transformations/uncertainty/distributions.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index ac37b5c..1466a54 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -216,11 +216,12 @@ class Normal(NoUncertainty):
             obj['amount'] = 0
             # TODO: Log this
             return remove_exchange_uncertainty(obj)
-        obj['uncertainty']['variance'] = (
-            (obj['amount'] * factor) / obj['amount']
-        ) ** 2 * obj['uncertainty']['variance']
+        for field in ('variance', 'variance with pedigree uncertainty'):
+            if field in obj['uncertainty']:
+                obj['uncertainty'][field] *= factor * factor
         obj['amount'] *= factor
-        # TODO: Adjust variance with pedigree uncertainty
+        if 'mean' in obj['uncertainty']:
+            obj['uncertainty']['mean'] = obj['amount']
         return Normal.recalculate(obj)
 
     @staticmethod
-- 
2.43.0


From 3eec359912bebbbcf7504bc1e8231ec19fe598f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 11/42] fix: allow rescaling lognormal distributions with zero
 amounts

---
 ocelot/transformations/uncertainty/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/uncertainty/distributions.py b/ocelot/transformations/uncertainty/distributions.py
index 1466a54..1775094 100644
--- a/ocelot/transformations/uncertainty/distributions.py
+++ b/ocelot/transformations/uncertainty/distributions.py
@@ -136,7 +136,7 @@ class Lognormal(NoUncertainty):
             obj['amount'] = -1 * obj['amount']
             obj['uncertainty']['negative'] = not obj['uncertainty'].get('negative')
             return Lognormal.rescale(obj, abs(factor))
-        elif factor == 0:
+        elif factor == 0 or obj['amount'] == 0:
             obj['amount'] = 0
             # TODO: Log this
             return remove_exchange_uncertainty(obj)
-- 
2.43.0


From 7083861455dae01e9ad5adacdcad03756229a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 12/42] fix: allow market groups without any suppliers

---
 ocelot/transformations/locations/market_groups.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ocelot/transformations/locations/market_groups.py b/ocelot/transformations/locations/market_groups.py
index 764b815..f8fbdf7 100644
--- a/ocelot/transformations/locations/market_groups.py
+++ b/ocelot/transformations/locations/market_groups.py
@@ -80,10 +80,6 @@ def link_market_group_suppliers(data):
                 )
             ]
 
-            if not ds['suppliers']:
-                del ds['suppliers']
-                continue
-
             for exc in ds['suppliers']:
                 logger.info({
                     'type': 'table element',
-- 
2.43.0


From 1066239c830de9ccc9a9557b3478b56a1126ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 13/42] fix: don't delete global datasets which are still used
 as suppliers

---
 ocelot/transformations/locations/markets.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ocelot/transformations/locations/markets.py b/ocelot/transformations/locations/markets.py
index ac1cedf..ec41e4f 100644
--- a/ocelot/transformations/locations/markets.py
+++ b/ocelot/transformations/locations/markets.py
@@ -404,6 +404,13 @@ assign_fake_pv_to_confidential_datasets.__table__ = {
 def delete_global_with_zero_pv_when_regional_present(data, kind="market activity"):
     """"""
     purge = []
+    # Can't delete anything which is already linked (i.e. hard links),
+    # or which will be linked in ``allocate_suppliers``
+    in_use = {exc['code'] for ds in data for exc in ds['exchanges']
+              if exc.get('code')}
+    in_use.update(exc['code'] for ds in data for exc in ds.get('suppliers', [])
+                  if len(ds['suppliers']) == 1
+                  or exc['production volume']['amount'])
     act_filter = lambda x: x['type'] == kind
     grouped = toolz.groupby("reference product", filter(act_filter, data))
     for rp, group in grouped.items():
@@ -412,6 +419,7 @@ def delete_global_with_zero_pv_when_regional_present(data, kind="market activity
         try:
             row = next(ds for ds in group if ds['location'] == 'RoW')
             assert not original_production_volume(row)
+            assert row.get('code') not in in_use
             purge.append(row)
             logger.info({
                 'type': 'table element',
-- 
2.43.0


From 168fbb362ec6f6403d5e3df772e135813d18fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 14/42] fix: raise an error instead of allocating with
 undefined allocation factors

---
 ocelot/transformations/cutoff/economic.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ocelot/transformations/cutoff/economic.py b/ocelot/transformations/cutoff/economic.py
index e6e5345..10958ab 100644
--- a/ocelot/transformations/cutoff/economic.py
+++ b/ocelot/transformations/cutoff/economic.py
@@ -1,4 +1,5 @@
 # -*- coding: utf-8 -*-
+from ...errors import InvalidExchange
 from .utils import apply_allocation_factors
 from .validation import valid_economic_activity
 from ..utils import (
@@ -39,10 +40,16 @@ def economic_allocation(dataset, use_true_value=True):
 
     """
     df = allocatable_production_as_dataframe(dataset)
+    if not df['revenue'].sum():
+        message = "Can't allocate with zero total revenue in dataset:\n{}"
+        raise InvalidExchange(message.format(dataset['filepath']))
     factors = df['revenue'] / df['revenue'].sum()
     if use_true_value:
         mask = df['has true value']
         true_value = (df['true value'] * df['amount'])
+        if mask.any() and not true_value.sum():
+            message = "Can't allocate with zero total true value in dataset:\n{}"
+            raise InvalidExchange(message.format(dataset['filepath']))
         true_value_revenue_fraction = (
             df['revenue'][mask].sum() /
             df['revenue'].sum()
-- 
2.43.0


From ba63686279f8e90e20ad134cae44b38743abbe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 15/42] fix: flip uncertainty together with amount of
 non-allocatable byproducts

---
 ocelot/transformations/cutoff/wastes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ocelot/transformations/cutoff/wastes.py b/ocelot/transformations/cutoff/wastes.py
index aaa4bf6..fa3e739 100644
--- a/ocelot/transformations/cutoff/wastes.py
+++ b/ocelot/transformations/cutoff/wastes.py
@@ -196,8 +196,7 @@ def flip_non_allocatable_byproducts(dataset):
             })
             del exc['byproduct classification']
             exc['type'] = 'from technosphere'
-            # TODO: Use rescale_exchange when new uncertainties code is merged
-            exc['amount'] = -1 * exc['amount']
+            scale_exchange(exc, -1)
             if 'formula' in exc:
                 exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return [dataset]
-- 
2.43.0


From 63c7ec3fe8083f4a0df5cb12fdf4b5745fd5b1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 16/42] fix: strip whitespace from property variable names

---
 ocelot/io/extract_ecospold2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index aec6380..6023b04 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -104,7 +104,7 @@ def extract_property(prop):
     if hasattr(prop, "uncertainty"):
         data['uncertainty'] = extract_uncertainty(prop.uncertainty)
     if prop.get("variableName"):
-        data['variable'] = prop.get("variableName")
+        data['variable'] = prop.get("variableName").strip()
     if prop.get("mathematicalRelation"):
         data['formula'] = prop.get("mathematicalRelation").strip()
     return data
-- 
2.43.0


From e6d6931b1b2e09c8990f94aade551cccae1fdaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:19 +0000
Subject: [PATCH 17/42] fix: skip symbolic links when cleaning up the data
 directory

---
 ocelot/io/cleanup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/io/cleanup.py b/ocelot/io/cleanup.py
index 460e776..b7ac801 100644
--- a/ocelot/io/cleanup.py
+++ b/ocelot/io/cleanup.py
@@ -12,7 +12,7 @@ def cleanup_data_directory():
     print("\nCleaning up data directory {}".format(base_dir))
     for report in os.listdir(base_dir):
         dirpath = os.path.join(base_dir, report)
-        if not os.path.isdir(dirpath):
+        if not os.path.isdir(dirpath) or os.path.islink(dirpath):
             continue
         created = os.path.getctime(dirpath)
         if created < now - one_week:
-- 
2.43.0


From bbcd25ce100aef4025cea6fdf25f20b3db734a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 18/42] fix: never leave incomplete cache files

---
 ocelot/filesystem.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index c855950..a914a7f 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -116,8 +116,17 @@ def get_from_cache(data_path):
 
 def cache_data(data, data_path):
     """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use."""
-    with open(get_cache_filepath_for_data_path(data_path), "wb") as f:
-        pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+    cache_fp = get_cache_filepath_for_data_path(data_path)
+    # Don't leave an incomplete but fresh cache file when interrupted
+    temp_fp = "{}.{}.tmp".format(cache_fp, uuid.uuid4().hex)
+    try:
+        with open(temp_fp, "wb") as f:
+            pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+        os.replace(temp_fp, cache_fp)
+    except BaseException:
+        if os.path.exists(temp_fp):
+            os.remove(temp_fp)
+        raise
 
 
 class OutputDir(object):
-- 
2.43.0


From 490811de8af14e56bcf691e0a467df0645084240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 19/42] fix: check cache freshness against all extracted files,
 including none at all

---
 ocelot/filesystem.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index a914a7f..2e1a094 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -99,10 +99,13 @@ def check_cache_directory(data_path):
     cache_time = os.stat(cache_fp).st_mtime
     source_time = max([
         os.stat(data_path).st_mtime,
-        max(
+        max((
             os.stat(os.path.join(data_path, fn)).st_mtime for fn in
-            filter(lambda x: not x.startswith("."), os.listdir(data_path))
-        )
+            filter(
+                lambda x: not x.startswith(".") or x.lower().endswith(".spold"),
+                os.listdir(data_path)
+            )
+        ), default=0)
     ])
     return cache_time > source_time
 
-- 
2.43.0


From 007bb5b9d431c43be62bc5e77edd8682253e6994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:03 +0000
Subject: [PATCH 20/42] fix: don't use cached data if the source files changed
 during extraction

---
 ocelot/filesystem.py  | 8 ++++++--
 ocelot/io/__init__.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 2e1a094..17f287d 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -117,14 +117,18 @@ def get_from_cache(data_path):
     return pickle.load(open(get_cache_filepath_for_data_path(data_path), "rb"))
 
 
-def cache_data(data, data_path):
-    """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use."""
+def cache_data(data, data_path, timestamp=None):
+    """Write extracted ``data`` from source directory ``data_path`` to cache directory for future use.
+
+    ``timestamp`` is when the extraction was started; source files changed afterwards are newer than the cache."""
     cache_fp = get_cache_filepath_for_data_path(data_path)
     # Don't leave an incomplete but fresh cache file when interrupted
     temp_fp = "{}.{}.tmp".format(cache_fp, uuid.uuid4().hex)
     try:
         with open(temp_fp, "wb") as f:
             pickle.dump(data, f, protocol=pickle.HIGHEST_PROTOCOL)
+        if timestamp is not None:
+            os.utime(temp_fp, (timestamp, timestamp))
         os.replace(temp_fp, cache_fp)
     except BaseException:
         if os.path.exists(temp_fp):
diff --git a/ocelot/io/__init__.py b/ocelot/io/__init__.py
index 6515bd4..df324a7 100644
--- a/ocelot/io/__init__.py
+++ b/ocelot/io/__init__.py
@@ -10,6 +10,7 @@ __all__ = (
 from .extract_ecospold2 import extract_ecospold2_directory
 from ..filesystem import check_cache_directory, get_from_cache, cache_data
 import os
+import time
 
 
 def extract_directory(data_path, use_cache=True, use_mp=True):
@@ -25,8 +26,9 @@ def extract_directory(data_path, use_cache=True, use_mp=True):
         print("Using cached ecospold2 data")
         return get_from_cache(data_path)
     else:
+        timestamp = time.time()
         data = extract_ecospold2_directory(data_path, use_mp)
-        cache_data(data, data_path)
+        cache_data(data, data_path, timestamp)
     return data
 
 from .cleanup import cleanup_data_directory
-- 
2.43.0


From 9df525dc5f2b158a4ed51476031e9feb9cf2db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:44 +0000
Subject: [PATCH 21/42] fix: turn waste and recyclable byproducts into inputs
 before linking them

They were changed to inputs only after linking, and were therefore never
linked to treatment markets or recycled content datasets.
---
 ocelot/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ocelot/configuration.py b/ocelot/configuration.py
index 7e7fd9e..b7eb7fc 100644
--- a/ocelot/configuration.py
+++ b/ocelot/configuration.py
@@ -60,10 +60,10 @@ cutoff_config = Collection(
     handle_waste_outputs,
     cutoff_allocation,
     drop_rp_activity_links,
+    flip_non_allocatable_byproducts,
     link_markets_by_pv,
     rename_recycled_content_products_after_linking,
     # extrapolate to database reference year
-    flip_non_allocatable_byproducts,
     TransformationWrapper(normalize_reference_production_amount),
     adjust_market_signs_for_allocatable_products,
     # Need to fix many formula errors before this can work
@@ -89,10 +89,10 @@ cutoff_config_ecoinvent_row = Collection(
     handle_waste_outputs,
     cutoff_allocation,
     drop_rp_activity_links,
+    flip_non_allocatable_byproducts,
     link_markets_by_pv_ecoinvent_row,
     rename_recycled_content_products_after_linking,
     # extrapolate to database reference year
-    flip_non_allocatable_byproducts,
     TransformationWrapper(normalize_reference_production_amount),
     adjust_market_signs_for_allocatable_products,
     # Need to fix many formula errors before this can work
-- 
2.43.0


From 638bb77dbfbb53eaf0343f2ea361d89380f68055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:31 +0000
Subject: [PATCH 22/42] fix: subtract hard links of treatment activities from
 production volumes

Their negative production amount gave a negative scale, i.e. the volume they
consume was added to the production volume of the supplier.
---
 ocelot/transformations/activity_links.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/activity_links.py b/ocelot/transformations/activity_links.py
index d485305..794ecf7 100644
--- a/ocelot/transformations/activity_links.py
+++ b/ocelot/transformations/activity_links.py
@@ -139,8 +139,9 @@ def add_hard_linked_production_volumes(data):
             # only have a relative amount. But this datasets could be
             # multioutput. So to get the absolute amount of PV subtracted, we
             # need to translate relative to absolute amount. This value does
-            # this in the `ds` frame of reference
-            scale = get_biggest_pv_to_exchange_ratio(ds)
+            # this in the `ds` frame of reference. Need ``abs`` because the
+            # production amount of treatment activities is negative
+            scale = abs(get_biggest_pv_to_exchange_ratio(ds))
 
             message = "Subtracting activity link: {:.4g} (out of {:.4g}) from {} | {}"
             detailed.info({
-- 
2.43.0


From a01309f9a4903fb6db7fb87775d1fd7646357547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:41 +0000
Subject: [PATCH 23/42] fix: check each RoW dataset when deleting global
 datasets without production

Only the first RoW dataset of a product was checked, so the result depended
on the order of the input datasets.
---
 ocelot/transformations/locations/markets.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/ocelot/transformations/locations/markets.py b/ocelot/transformations/locations/markets.py
index ec41e4f..4a53033 100644
--- a/ocelot/transformations/locations/markets.py
+++ b/ocelot/transformations/locations/markets.py
@@ -416,17 +416,16 @@ def delete_global_with_zero_pv_when_regional_present(data, kind="market activity
     for rp, group in grouped.items():
         if len(group) < 2:
             continue
-        try:
-            row = next(ds for ds in group if ds['location'] == 'RoW')
-            assert not original_production_volume(row)
-            assert row.get('code') not in in_use
+        # Each technology has its own ``RoW``
+        for row in (ds for ds in group if ds['location'] == 'RoW'):
+            if (original_production_volume(row)
+                or row.get('code') in in_use):
+                continue
             purge.append(row)
             logger.info({
                 'type': 'table element',
                 'data': (row['name'], rp, row['location'])
             })
-        except (StopIteration, AssertionError):
-            continue
     return [ds for ds in data if ds not in purge]
 
 delete_global_with_zero_pv_when_regional_present.__table__ = {
-- 
2.43.0


From fe0a88843c6792d5aaedbf45687773c0ada03eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:15 +0000
Subject: [PATCH 24/42] fix: let market groups include the RoW market when
 larger markets exist

---
 ocelot/transformations/locations/market_groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/locations/market_groups.py b/ocelot/transformations/locations/market_groups.py
index f8fbdf7..298ece2 100644
--- a/ocelot/transformations/locations/market_groups.py
+++ b/ocelot/transformations/locations/market_groups.py
@@ -61,7 +61,9 @@ def link_market_group_suppliers(data):
             found, to_add = [], []
 
             for candidate in ordered:
-                if topology.contains(loc, candidate, subtract=found, resolved_row=resolved_supplier_row):
+                # Need to pass actual faces if candidate is ``RoW``
+                faces = resolved_supplier_row if candidate == 'RoW' else candidate
+                if topology.contains(loc, faces, subtract=found):
                     if candidate in markets:
                         found.append(candidate)
                         to_add.append(markets[candidate])
-- 
2.43.0


From 8915a2ad25b31695bf294d07618f46c741812107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:58 +0000
Subject: [PATCH 25/42] fix: translate `power` clauses inside of `if` clauses

---
 .../transformations/parameterization/python_compatibility.py   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index c2ffc26..6bdba61 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -151,8 +151,9 @@ def fix_math_formulas(data):
                         'data': (ds['name'], exc['formula'], bad, good)
                     })
                     exc['formula'] = exc['formula'].replace(bad, good)
-            exc['formula'] = find_if_clause(ds, exc['formula'])
+            # ``power`` first, as its semicolon would be taken for one of ``if``
             exc['formula'] = find_power_clause(ds, exc['formula'])
+            exc['formula'] = find_if_clause(ds, exc['formula'])
     return data
 
 fix_math_formulas.__table__ = {
-- 
2.43.0


From eaac21a76073e4870236f9901167d5c2e531520a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:58 +0000
Subject: [PATCH 26/42] fix: keep conditional expressions when replacing
 reserved words in formulas

---
 .../parameterization/python_compatibility.py  | 31 ++++++++++---------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index 6bdba61..e287072 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -224,20 +224,23 @@ def check_and_fix_formula(ds, string):
         get_ast_names(updated)
         return updated
     except UnparsableFormula:
-        found = []
-        for word, reg_exp in RESERVED_WORDS_RE:
-            if reg_exp.search(updated):
-                updated = reg_exp.sub(word.upper(), updated)
-                found.append(word)
-        try:
-            get_ast_names(updated)
-            logger.info({
-                'type': 'table element',
-                'data': (ds['name'], ";".join(found), string)
-            })
-            return updated
-        except UnparsableFormula:
-            return string
+        # Conditional expressions from ``fix_math_formulas`` need their keywords
+        for keep in ({"if", "else"}, set()):
+            fixed, found = updated, []
+            for word, reg_exp in RESERVED_WORDS_RE:
+                if word not in keep and reg_exp.search(fixed):
+                    fixed = reg_exp.sub(word.upper(), fixed)
+                    found.append(word)
+            try:
+                get_ast_names(fixed)
+                logger.info({
+                    'type': 'table element',
+                    'data': (ds['name'], ";".join(found), string)
+                })
+                return fixed
+            except UnparsableFormula:
+                pass
+        return string
 
 
 def replace_reserved_words(data):
-- 
2.43.0


From e94abd289d98c660dd31dfd63ab8ece48eddb816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:36 +0000
Subject: [PATCH 27/42] fix: evaluate divisions of numpy numbers by zero to
 zero as well

---
 ocelot/transformations/parameterization/recalculation.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index 71358f1..a00bcb1 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -5,6 +5,7 @@ from asteval import Interpreter
 from bw2parameters import ParameterSet
 from bw2parameters.errors import ParameterError, DuplicateName
 import logging
+import numpy as np
 
 logger = logging.getLogger('ocelot')
 detailed = logging.getLogger('ocelot-detailed')
@@ -28,9 +29,11 @@ def extract_named_parameters(dataset):
 def evaluate_formula(interpreter, formula):
     """Evaluate ``formula``.
 
-    ``asteval`` doesn't raise errors, but stores them. We need to know about division by zero, as ``None`` would be returned in this case."""
-    value = interpreter(formula)
-    if any(error.exc is ZeroDivisionError for error in interpreter.error):
+    ``asteval`` doesn't raise errors, but stores them. We need to know about division by zero, as ``None`` would be returned in this case. Numpy numbers (e.g. from ``sqrt``) don't even lead to an error, but to ``nan`` or ``inf``."""
+    with np.errstate(divide='raise', invalid='raise'):
+        value = interpreter(formula)
+    if any(error.exc in (ZeroDivisionError, FloatingPointError)
+           for error in interpreter.error):
         raise ZeroDivisionError(formula)
     return value
 
-- 
2.43.0


From 09a9358361902b3c2146b0e49296edfe36a5dc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:50 +0000
Subject: [PATCH 28/42] fix: raise an error for unknown uncertainty
 distributions instead of losing datasets

---
 ocelot/io/extract_ecospold2.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ocelot/io/extract_ecospold2.py b/ocelot/io/extract_ecospold2.py
index 6023b04..6964102 100644
--- a/ocelot/io/extract_ecospold2.py
+++ b/ocelot/io/extract_ecospold2.py
@@ -68,7 +68,10 @@ def extract_uncertainty(unc):
                            'uniform', 'undefined', 'binomial', 'gamma']
     distribution = next((getattr(unc, label)
                          for label in distribution_labels
-                         if hasattr(unc, label)))
+                         if hasattr(unc, label)), None)
+    if distribution is None:
+        # StopIteration would silently end the extraction in worker processes
+        raise ValueError("No known uncertainty distribution found")
     data = {UNCERTAINTY_MAPPING.get(key, key): float(distribution.get(key))
             for key in distribution.keys()}
     data.update({
-- 
2.43.0


From 11c2e80aab716ad577bbb4434cda5fd7cecb6683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:46 +0000
Subject: [PATCH 29/42] fix: don't fail if another process creates the same
 directory

---
 ocelot/filesystem.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 17f287d..46376f1 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -37,8 +37,7 @@ def safe_filename(string):
 
 def create_dir(dirpath):
     """Create directory tree to `dirpath`; ignore if already exists"""
-    if not os.path.isdir(dirpath):
-        os.makedirs(dirpath)
+    os.makedirs(dirpath, exist_ok=True)
     return dirpath
 
 
-- 
2.43.0


From f29240b345f012894cba4b51c094a4718a289b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:35 +0000
Subject: [PATCH 30/42] fix: write log messages of consequential functions to
 the report log

---
 ocelot/transformations/consequential/constrained_markets.py | 6 ++++--
 ocelot/transformations/consequential/technology_levels.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index a43979c..e6d7fcc 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ..utils import get_single_reference_product
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def flip_exchange(exc):
     """Flip amount and formula of an exchange"""
@@ -58,7 +60,7 @@ def handle_constrained_markets(data):
             target_exc['byproduct classification'] = 'allocatable product'
             flip_exchange(target_exc)
 
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (exc['name'], target['name'],
                          target['location'], target_rp['name']),
@@ -96,7 +98,7 @@ def delete_activity_links_to_constrained_markets(data):
         )
         for exc in exchange_iterator:
             del exc['activity link']
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['location'],
                          exc['name'], exc['amount']),
diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 19451a8..c8f9b23 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -3,6 +3,8 @@ from ... import toolz
 from ...collection import Collection
 import logging
 
+logger = logging.getLogger('ocelot')
+
 
 def log_conflicting_technology_levels(data):
     """Log anytime that there are both ``undefined`` and ``current`` inputs to a market.
@@ -14,7 +16,7 @@ def log_conflicting_technology_levels(data):
     for rp, datasets in toolz.groupby('reference product',
                                       filter(activity_ds_filter, data)).items():
         if has_undefined(datasets) and has_current(datasets):
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (rp, len(datasets))
             })
@@ -31,7 +33,7 @@ def switch_undefined_to_current(data):
     for ds in filter(activity_ds_filter, data):
         if ds['technology level'] == 'undefined':
             ds['technology level'] = 'current'
-            logging.info({
+            logger.info({
                 'type': 'table element',
                 'data': (ds['name'], ds['reference product'], ds['location'])
             })
-- 
2.43.0


From 82150f28060319e3934642258b7edce05d5927d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:38 +0000
Subject: [PATCH 31/42] fix: flip uncertainty together with amount of
 constrained market exchanges

---
 ocelot/transformations/consequential/constrained_markets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/consequential/constrained_markets.py b/ocelot/transformations/consequential/constrained_markets.py
index e6d7fcc..428ad80 100644
--- a/ocelot/transformations/consequential/constrained_markets.py
+++ b/ocelot/transformations/consequential/constrained_markets.py
@@ -1,5 +1,6 @@
 # -*- coding: utf-8 -*-
 from ... import toolz
+from ..uncertainty import scale_exchange
 from ..utils import get_single_reference_product
 import logging
 
@@ -7,8 +8,8 @@ logger = logging.getLogger('ocelot')
 
 
 def flip_exchange(exc):
-    """Flip amount and formula of an exchange"""
-    exc['amount'] = -1 * exc['amount']
+    """Flip amount, uncertainty and formula of an exchange"""
+    scale_exchange(exc, -1)
     if 'formula' in exc:
         exc['formula'] = '-1 * ({})'.format(exc['formula'])
     return exc
-- 
2.43.0


From e9dab9c26c106ce6908f91cb293d396909016158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:42 +0000
Subject: [PATCH 32/42] fix: don't use cache for moved or copied source files
 with old modification times

---
 ocelot/filesystem.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 46376f1..7c76aea 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -87,6 +87,14 @@ def get_cache_filepath_for_data_path(data_path):
     )
 
 
+def get_change_time(path):
+    """Return time when the file or directory ``path`` was last changed or put in place.
+
+    Moved files, and copies which preserve time stamps, have old modification times, so also look at the time of the last status change."""
+    stat = os.stat(path)
+    return max(stat.st_mtime, stat.st_ctime)
+
+
 def check_cache_directory(data_path):
     """Check that the data in the cache directory for source directory ``data_path`` is still fresh.
 
@@ -97,9 +105,9 @@ def check_cache_directory(data_path):
         return False
     cache_time = os.stat(cache_fp).st_mtime
     source_time = max([
-        os.stat(data_path).st_mtime,
+        get_change_time(data_path),
         max((
-            os.stat(os.path.join(data_path, fn)).st_mtime for fn in
+            get_change_time(os.path.join(data_path, fn)) for fn in
             filter(
                 lambda x: not x.startswith(".") or x.lower().endswith(".spold"),
                 os.listdir(data_path)
-- 
2.43.0


From 7fcf5899e6fc694e45fbd93754a2f47fcc2c8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:17 +0000
Subject: [PATCH 33/42] fix: don't use cache of another directory which was at
 the same path

---
 ocelot/filesystem.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ocelot/filesystem.py b/ocelot/filesystem.py
index 7c76aea..f796a38 100644
--- a/ocelot/filesystem.py
+++ b/ocelot/filesystem.py
@@ -78,11 +78,13 @@ def get_base_directory():
 def get_cache_filepath_for_data_path(data_path):
     """Return the cache directory for source directory ``data_path``.
 
-    The cache filepath is in the directory returned by ``get_cache_directory``. The file name is the MD5 hash of the string ``data_path`` + ``__io_version__``, plus the suffix ``".pickle"``"""
+    The cache filepath is in the directory returned by ``get_cache_directory``. The file name is the MD5 hash of the string ``data_path`` + the file system identifier of the directory + ``__io_version__``, plus the suffix ``".pickle"``"""
+    # Links and renamed parent directories can put another directory at the same path
+    identifier = os.stat(data_path).st_ino if os.path.exists(data_path) else ""
     return os.path.join(
         get_cache_directory(),
         hashlib.md5(
-            (os.path.abspath(data_path) + __io_version__).encode("utf-8")
+            "{}:{}:{}".format(os.path.abspath(data_path), identifier, __io_version__).encode("utf-8")
         ).hexdigest() + ".pickle"
     )
 
-- 
2.43.0


From a8d08e78ab0d9a188a428982981664893ecc8315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:46 +0000
Subject: [PATCH 34/42] fix: don't use a function as name of the technology
 level cleanup, so that it is run

---
 ocelot/transformations/consequential/technology_levels.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index c8f9b23..2c9ebec 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -46,6 +46,7 @@ switch_undefined_to_current.__table__ = {
 
 
 cleanup_technology_levels = Collection(
+    "Cleanup technology levels",
     log_conflicting_technology_levels,
     switch_undefined_to_current,
 )
-- 
2.43.0


From c6f77c7abe9f0cb2d2033a23bcefe5180d1a7eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:46 +0000
Subject: [PATCH 35/42] fix: name all columns of the table of switched
 technology levels

---
 ocelot/transformations/consequential/technology_levels.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/consequential/technology_levels.py b/ocelot/transformations/consequential/technology_levels.py
index 2c9ebec..9f05568 100644
--- a/ocelot/transformations/consequential/technology_levels.py
+++ b/ocelot/transformations/consequential/technology_levels.py
@@ -41,7 +41,7 @@ def switch_undefined_to_current(data):
 
 switch_undefined_to_current.__table__ = {
     'title': 'Switch all `undefined` activity technology levels to `current`',
-    'columns': ["Reference product", "Number of datasets"]
+    'columns': ["Activity name", "Reference product", "Location"]
 }
 
 
-- 
2.43.0


From 923a0bb9da47a88aabba990e2097ce3c8a60e8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 36/42] fix: refuse unknown names of system models with the
 documented error instead of a RecursionError

---
 ocelot/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/collection.py b/ocelot/collection.py
index e835453..ba6cb12 100644
--- a/ocelot/collection.py
+++ b/ocelot/collection.py
@@ -61,7 +61,7 @@ def unwrap_functions(lst):
         for func in functions:
             # wrapt decorators are iterable for some reason
             if (isinstance(func, Iterable) and
-                not isinstance(func, wrapt.FunctionWrapper)):
+                not isinstance(func, (str, wrapt.FunctionWrapper))):
                 for obj in unwrapper(func):
                     yield obj
             else:
-- 
2.43.0


From 97a2b3c5b25bf6876bddf131e169d5fb1bf9a827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:37 +0000
Subject: [PATCH 37/42] fix: translate power clauses whose arguments have
 parentheses

---
 .../parameterization/python_compatibility.py  | 34 +++++++++++++++----
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index e287072..badaef8 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -36,7 +36,7 @@ COMPLETE_IF = re.compile("^if\((?P<condition>[^;]+);(?P<if_yes>[^;]+);(?P<if_no>
 
 PERCENT_VARIABLE_RE = re.compile(r"(?<![\w.])([^\W\d]\w*)%")
 
-POWER_RE = re.compile(r"power\((?P<base>[^;()]+);(?P<exponent>[^;()]+)\)")
+POWER_BEGINNING = re.compile(r"(?<!\w)power\(")
 
 
 def find_if_boundaries(string):
@@ -123,16 +123,36 @@ def as_number(string):
         return string
 
 
+def split_arguments(string):
+    """Split ``string`` at semicolons which aren't inside of parentheses"""
+    arguments, depth = [""], 0
+    for character in string:
+        depth += {"(": 1, ")": -1}.get(character, 0)
+        if character == ";" and not depth:
+            arguments.append("")
+        else:
+            arguments[-1] += character
+    return arguments
+
+
 def find_power_clause(ds, string):
-    while POWER_RE.search(string):
-        match = POWER_RE.search(string)
-        match_string = match.group(0)
-        replacement = "(({})**({}))".format(*[as_number(x) for x in match.groups()])
+    """Reformat clauses that use ``power(base;exponent)`` syntax, which can be nested."""
+    # Last clause first, as it can be inside of another one
+    for match in reversed(list(POWER_BEGINNING.finditer(string))):
+        clause = string[match.start():]
+        try:
+            start, end = find_if_boundaries(clause)
+        except ValueError:
+            continue
+        arguments = split_arguments(clause[start:end])
+        if len(arguments) != 2:
+            continue
+        replacement = "(({})**({}))".format(*[as_number(x) for x in arguments])
         logger.info({
             'type': 'table element',
-            'data': (ds['name'], '', match_string, replacement)
+            'data': (ds['name'], '', clause[:end + 1], replacement)
         })
-        string = string.replace(match_string, replacement)
+        string = string[:match.start()] + replacement + clause[end + 1:]
     return string
 
 
-- 
2.43.0


From 22203783603ccc553f1b78d98aebda3a1e62d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:02 +0000
Subject: [PATCH 38/42] fix: don't fail allocation because of products with an
 amount of zero

---
 ocelot/transformations/cutoff/economic.py | 2 +-
 ocelot/transformations/cutoff/utils.py    | 5 ++++-
 ocelot/transformations/cutoff/wastes.py   | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/cutoff/economic.py b/ocelot/transformations/cutoff/economic.py
index 10958ab..ad5f52f 100644
--- a/ocelot/transformations/cutoff/economic.py
+++ b/ocelot/transformations/cutoff/economic.py
@@ -45,7 +45,7 @@ def economic_allocation(dataset, use_true_value=True):
         raise InvalidExchange(message.format(dataset['filepath']))
     factors = df['revenue'] / df['revenue'].sum()
     if use_true_value:
-        mask = df['has true value']
+        mask = df['has true value'] & (df['amount'] != 0)
         true_value = (df['true value'] * df['amount'])
         if mask.any() and not true_value.sum():
             message = "Can't allocate with zero total true value in dataset:\n{}"
diff --git a/ocelot/transformations/cutoff/utils.py b/ocelot/transformations/cutoff/utils.py
index 1680d26..dbbf41f 100644
--- a/ocelot/transformations/cutoff/utils.py
+++ b/ocelot/transformations/cutoff/utils.py
@@ -10,10 +10,13 @@ def apply_allocation_factors(dataset, factors):
 
     ``dataset`` is a normal activity dataset. ``factors`` has the data format: ``[(allocation factor, chosen reference product exchange)]``.
 
-    Returns a list of ``len(factors)`` new datasets."""
+    Products with an amount of zero are not produced, so they don't get a dataset.
+
+    Returns a list of new datasets."""
     return [
         choose_reference_product_exchange(dataset, exc, scale)
         for scale, exc in factors
+        if exc['amount']
     ]
 
 
diff --git a/ocelot/transformations/cutoff/wastes.py b/ocelot/transformations/cutoff/wastes.py
index fa3e739..a7baf8b 100644
--- a/ocelot/transformations/cutoff/wastes.py
+++ b/ocelot/transformations/cutoff/wastes.py
@@ -78,6 +78,7 @@ def waste_treatment_allocation(dataset):
         free_byproduct(dataset, exchange)
         for exchange in allocatable_production(dataset)
         if exchange is not rp
+        and exchange['amount']
     ]
 
 
-- 
2.43.0


From 4f2c2dece10f7502c2a600db54eae8ae446ba37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:50 +0000
Subject: [PATCH 39/42] fix: treat "async" and "await" as reserved words in
 formulas

---
 ocelot/transformations/parameterization/python_compatibility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocelot/transformations/parameterization/python_compatibility.py b/ocelot/transformations/parameterization/python_compatibility.py
index badaef8..4db73e9 100644
--- a/ocelot/transformations/parameterization/python_compatibility.py
+++ b/ocelot/transformations/parameterization/python_compatibility.py
@@ -21,7 +21,7 @@ KNOWN_MATH_SUBSTITUTIONS = (
 )
 
 RESERVED_WORDS = {
-    "and", "as", "assert", "break", "class", "continue", "def", "del",
+    "and", "as", "assert", "async", "await", "break", "class", "continue", "def", "del",
     "elif", "else", "except", "False", "finally", "for", "from", "global",
     "if", "import", "in", "is", "lambda", "None", "nonlocal", "not", "or",
     "pass", "raise", "return", "True", "try", "while", "with", "yield"
-- 
2.43.0


From aafbed13b45a41b3d741eedb439eacafb6beb49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:05 +0000
Subject: [PATCH 40/42] fix: give market groups their suppliers in the
 consequential model

---
 ocelot/transformations/consequential/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ocelot/transformations/consequential/__init__.py b/ocelot/transformations/consequential/__init__.py
index 7c001fd..b3eae5c 100644
--- a/ocelot/transformations/consequential/__init__.py
+++ b/ocelot/transformations/consequential/__init__.py
@@ -39,6 +39,7 @@ link_markets_by_technology_level = Collection(
                                       to_type="market group"),
     partial(update_market_production_volumes, kind='market group'),
     allocate_all_market_suppliers,
+    partial(allocate_all_market_suppliers, kind='market group'),
     delete_suppliers_list,
     # drop_zero_pv_row_datasets,
     link_consumers_to_markets,
-- 
2.43.0


From c70e3696f11988bf6b1a266808980be63e15a109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:53 +0000
Subject: [PATCH 41/42] fix: escape special characters in tables and names of
 the report

---
 ocelot/data/report-template.jinja2 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ocelot/data/report-template.jinja2 b/ocelot/data/report-template.jinja2
index 2ab5f49..bacb3d0 100644
--- a/ocelot/data/report-template.jinja2
+++ b/ocelot/data/report-template.jinja2
@@ -33,7 +33,7 @@
           </ul>
       </nav>
       <h2 class="brand-title" style="margin-top: 1em;">Functions</h2>
-      {% for func in functions %}<p><a class="sidebar-link" href="#{{ func.id }}">{{ func.name }}</a></p>{% endfor %}
+      {% for func in functions %}<p><a class="sidebar-link" href="#{{ func.id }}">{{ func.name|e }}</a></p>{% endfor %}
     </div>
   </div>
   <div class="content pure-u-1 pure-u-md-3-4">
@@ -43,7 +43,7 @@
     <div id="countChart"></div>
     <h1>Transform functions</h1>
     {% for func in functions %}
-      <h2 id="{{ func.id }}">{{ func.id }}: {{ func.name }} <span class="pure-button toggle-button">toggle</span></h2>
+      <h2 id="{{ func.id }}">{{ func.id }}: {{ func.name|e }} <span class="pure-button toggle-button">toggle</span></h2>
       <div id="{{ func.id }}-container">
         <ul>
             <li>Total time: {{ func.time|int }} seconds</li>
@@ -64,7 +64,7 @@
             <tbody>
                 {% for row in func.tabledata %}
                 <tr>
-                    {% for elem in row %}<td>{{ elem }}</td>
+                    {% for elem in row %}<td>{{ elem|e }}</td>
                     {% endfor %}
                 </tr>
                 {% endfor %}
-- 
2.43.0


From 669d663dc633b9e263763037bd8a14bd5cf4d19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:26 +0000
Subject: [PATCH 42/42] fix: recalculation lost amounts whose formula can't be
 evaluated

An exchange, property or parameter without a variable name whose formula
uses an unknown name or function got the amount None. Keep the amount.
---
 ocelot/transformations/parameterization/recalculation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ocelot/transformations/parameterization/recalculation.py b/ocelot/transformations/parameterization/recalculation.py
index a00bcb1..46dbddc 100644
--- a/ocelot/transformations/parameterization/recalculation.py
+++ b/ocelot/transformations/parameterization/recalculation.py
@@ -80,9 +80,12 @@ def recalculate(dataset):
     for exc in iterate_all_parameters(dataset):
         if 'formula' in exc:
             try:
-                exc['amount'] = evaluate_formula(interpreter, exc['formula'])
+                amount = evaluate_formula(interpreter, exc['formula'])
             except ZeroDivisionError:
-                exc['amount'] = 0
+                amount = 0
+            # ``None`` if it can't be evaluated, e.g. because of an unknown name
+            if amount is not None:
+                exc['amount'] = amount
         elif 'variable' in exc:
             exc['amount'] = interpreter.symtable[exc['variable']]
         else:
-- 
2.43.0

