From f95c8b42ce85f1f95a2a183b9723984b94c6c400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:46 +0000
Subject: [PATCH 01/42] fix: restriction to several states pairs values with
 the right states, for any number of variables

---
 bcause/factors/values/numpyops.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 2613968..39a4452 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -100,7 +100,7 @@ class NumpyStoreOperations(OperationSet):
 
     @staticmethod
     def restrict(store : 'NumpyStore', observation:dict) -> 'NumpyStore':
-        items = []
+        items, subsets = [], dict()
         new_dom = OrderedDict()
         for v in store.variables:
             if v in observation.keys():
@@ -112,12 +112,15 @@ class NumpyStoreOperations(OperationSet):
                     idx = np.where(np.array(store.domain[v]) == obs_v)[0][0]
                     items.append(idx)
                 else:
-                    idx = [np.where(np.array(store.domain[v]) == x)[0][0] for x in obs_v]
-                    items.append(idx)
+                    # several states: keep them in the order of the domain
+                    subsets[v] = sorted(set(np.where(np.array(store.domain[v]) == x)[0][0] for x in obs_v))
+                    items.append(slice(None))
                     new_dom[v] = [x for x in store.domain[v] if x in obs_v]
             else:
                 items.append(slice(None))
                 new_dom[v] = store.domain[v]
         new_data = store._data[tuple(items)].copy()
+        for v, idx in subsets.items():
+            new_data = np.take(new_data, idx, axis=list(new_dom.keys()).index(v))
         return store.builder(domain=new_dom, data=new_data)
 
-- 
2.43.0


From 8b3ea6c16dd4d59e9dc0014937f2a8b86cd1ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:46 +0000
Subject: [PATCH 02/42] fix: 0/0 is 0 in the quotient of factors with any
 storage, not only with numpy

---
 bcause/factors/values/listops.py     | 4 ++--
 bcause/factors/values/numpyops.py    | 4 ++--
 bcause/factors/values/operations.py  | 9 ++++++++-
 bcause/factors/values/treedictops.py | 4 ++--
 4 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/bcause/factors/values/listops.py b/bcause/factors/values/listops.py
index e6e4c3a..1d3138f 100644
--- a/bcause/factors/values/listops.py
+++ b/bcause/factors/values/listops.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 import numpy as np
 
 import bcause.util.domainutils as dutil
-from bcause.factors.values.operations import OperationSet
+from bcause.factors.values.operations import OperationSet, safe_divide
 
 
 if TYPE_CHECKING:
@@ -63,7 +63,7 @@ class  ListStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'ListStore', other: 'ListStore') -> 'ListStore':
-        return  ListStoreOperations._generic_combine(store, other, lambda x, y: x / y)
+        return  ListStoreOperations._generic_combine(store, other, safe_divide)
 
     @staticmethod
     def restrict(store : 'ListStore', observation:dict) -> 'ListStore':
diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 39a4452..2935ee5 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING
 
 import numpy as np
 
-from bcause.factors.values.operations import OperationSet
+from bcause.factors.values.operations import OperationSet, safe_divide
 
 if TYPE_CHECKING:
     from bcause.factors.values import DataStore, NumpyStore
@@ -96,7 +96,7 @@ class NumpyStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'NumpyStore', other: 'NumpyStore') -> 'NumpyStore':
-        return NumpyStoreOperations._generic_combine(store, other, lambda x, y: np.nan_to_num(x / y))
+        return NumpyStoreOperations._generic_combine(store, other, safe_divide)
 
     @staticmethod
     def restrict(store : 'NumpyStore', observation:dict) -> 'NumpyStore':
diff --git a/bcause/factors/values/operations.py b/bcause/factors/values/operations.py
index 3f5dff1..5a0641d 100644
--- a/bcause/factors/values/operations.py
+++ b/bcause/factors/values/operations.py
@@ -6,9 +6,16 @@ from functools import reduce
 from typing import TYPE_CHECKING
 
 
+import numpy as np
+
 import bcause.util.domainutils as dutil
 
 
+def safe_divide(x, y):
+    # same convention in all the stores: 0/0 is 0
+    return np.nan_to_num(np.divide(x, y))
+
+
 if TYPE_CHECKING:
     from bcause.factors.values import DataStore, ListStore, NumpyStore
 
@@ -93,7 +100,7 @@ class GenericOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'DataStore', other: 'DataStore') -> 'DataStore':
-        return GenericOperations._generic_combine(store, other, lambda x, y: x / y)
+        return GenericOperations._generic_combine(store, other, safe_divide)
 
     @staticmethod
     def restrict(store : 'DataStore', observarion:dict) -> 'DataStore':
diff --git a/bcause/factors/values/treedictops.py b/bcause/factors/values/treedictops.py
index f446bab..d5503c3 100644
--- a/bcause/factors/values/treedictops.py
+++ b/bcause/factors/values/treedictops.py
@@ -4,7 +4,7 @@ from collections import OrderedDict
 from functools import reduce
 from typing import TYPE_CHECKING
 
-from bcause.factors.values.operations import OperationSet
+from bcause.factors.values.operations import OperationSet, safe_divide
 from bcause.util.treesutil import build_default_tree, treeNode
 
 if TYPE_CHECKING:
@@ -102,7 +102,7 @@ class TreeDictStoreOperations(OperationSet):
 
     @staticmethod
     def divide(store: 'TreeDictStore', other: 'TreeDictStore') -> 'TreeDictStore':
-        return TreeDictStoreOperations._generic_combine(store, other, lambda x, y: x / y)
+        return TreeDictStoreOperations._generic_combine(store, other, safe_divide)
 
 
     @staticmethod
-- 
2.43.0


From b1d33f0d076b174d460a511bf49f0a14228952d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:46 +0000
Subject: [PATCH 03/42] fix: combine numpy factors by state, also when they
 list the states of a variable in different order

---
 bcause/factors/values/numpyops.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bcause/factors/values/numpyops.py b/bcause/factors/values/numpyops.py
index 2935ee5..ff337e4 100644
--- a/bcause/factors/values/numpyops.py
+++ b/bcause/factors/values/numpyops.py
@@ -35,6 +35,9 @@ class NumpyStoreOperations(OperationSet):
 
         new_domain = OrderedDict({**op1.domain, **op2.domain})
 
+        # Set the same order for the states of the common variables
+        op1 = NumpyStoreOperations._reorder_states(op1, new_domain)
+
         # Extend domains if needed
         if len(op1.variables) < len(new_domain):
             op1 = NumpyStoreOperations._extend_domain(op1, **new_domain)
@@ -69,6 +72,18 @@ class NumpyStoreOperations(OperationSet):
         # create new object
         return store.builder(data = new_data, domain = new_dom)
 
+    @staticmethod
+    def _reorder_states(store, new_domain) -> 'NumpyStore':
+        if all(new_domain[v] == d for v, d in store.domain.items()):
+            return store
+
+        new_data = store.data
+        for i, (v, d) in enumerate(store.domain.items()):
+            new_data = np.take(new_data, [d.index(s) for s in new_domain[v]], axis=i)
+        new_dom = OrderedDict([(v, new_domain[v]) for v in store.variables])
+
+        return store.builder(data=new_data, domain=new_dom)
+
     @staticmethod
     def _extend_domain(store, **extra_dom) -> 'NumpyStore':
 
-- 
2.43.0


From 590cf7d3e3c22dc0450a5808217361e1d6fb268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 04/42] fix: combine factors with scalars on the left and with
 numpy scalars

---
 bcause/factors/mulitnomial.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index ad64d51..86d9c08 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import logging
 import math
+from numbers import Number
 from collections import OrderedDict
 from functools import reduce
 from typing import Dict, List, Iterable, Union, Hashable
@@ -77,7 +78,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
     def _prepare_operand(self, f):
         # if it's a scalar, transform it in a constant factor
-        if type(f) in [int,float]: f = self.builder(domain=dict(), values=[f])
+        if isinstance(f, Number): f = self.builder(domain=dict(), values=[f])
         return f
 
     def multiply(self, other : Union[MultinomialFactor, int, float]):
@@ -169,25 +170,25 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return self.multiply(other)
 
     def __rmul__(self, other):
-        return other.multiply(self)
+        return self._prepare_operand(other).multiply(self)
 
     def __add__(self, other):
         return self.addition(other)
 
     def __radd__(self, other):
-        return other.addition(self)
+        return self._prepare_operand(other).addition(self)
 
     def __sub__(self, other):
         return self.subtract(other)
 
     def __rsub__(self, other):
-        return other.subtract(self)
+        return self._prepare_operand(other).subtract(self)
 
     def __truediv__(self, other):
         return self.divide(other)
 
     def __rtruediv__(self, other):
-        return other.divide(self)
+        return self._prepare_operand(other).divide(self)
 
 
     def __xor__(self, vars_remove):
-- 
2.43.0


From b94f7792bdd5a16f791bda8b70d245e008371b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 05/42] fix: to_deterministic returns the states of the
 variable (not their positions), uai writes positions

---
 bcause/factors/mulitnomial.py | 4 ++--
 bcause/readwrite/bnwrite.py   | 9 +++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 86d9c08..baf24a4 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -46,9 +46,9 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("Wrong number of variables on the left")
 
         v = self.left_vars[0]
-        values = self.values_array().argmax(axis=self.variables.index(v))
+        values = np.array(self.domain[v])[self.values_array().argmax(axis=self.variables.index(v))]
         from bcause.factors import DeterministicFactor
-        return DeterministicFactor(self.domain, left_vars=[v], values=values)
+        return DeterministicFactor(self.domain, left_vars=[v], values=values, vtype=self.vtype)
 
     def constant(self, left_value):
 
diff --git a/bcause/readwrite/bnwrite.py b/bcause/readwrite/bnwrite.py
index f08b478..150f861 100644
--- a/bcause/readwrite/bnwrite.py
+++ b/bcause/readwrite/bnwrite.py
@@ -6,6 +6,7 @@ from pgmpy.readwrite import BIFWriter, XMLBIFWriter
 
 from bcause.factors import MultinomialFactor, DeterministicFactor
 from bcause.util.assertions import assert_file_exists
+from bcause.util.domainutils import assingment_space
 
 
 from typing import TYPE_CHECKING
@@ -67,8 +68,12 @@ def to_uai(model:'BayesianNetwork', filepath, reverse_values=False, label="BAYES
 
         # if not reverse_values:
         #     var_order = var_order[::-1]
-        values = f.values_array(vorder).flatten()
-        if v in integer_varlist:
+        # states in the order of the model, whatever their order in the factor
+        values = [f.get_value(**obs) for obs in assingment_space({x: model.domains[x] for x in vorder})]
+        if isinstance(f, DeterministicFactor):
+            # index of the states
+            values = [list(model.domains[v]).index(s) for s in values]
+        elif v in integer_varlist:
             values = [int(p) for p in values]
         out += f"{len(values)}\t" + " ".join([str(p) for p in values]) + "\n"
 
-- 
2.43.0


From 0e0ffe34e10e8901e2f4bb062a1cef2fdfb71d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 06/42] fix: canonical specification for any number of
 endogenous parents

---
 bcause/factors/deterministic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 92f8cda..61189d8 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import logging
 from collections import OrderedDict
-from itertools import product
+from itertools import chain, product
 from typing import Dict, List, Hashable
 
 import numpy as np
@@ -131,6 +131,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
 
 def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=None, vtype=None) -> MultinomialFactor:
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_endo_vars = right_endo_vars or []
 
     left_var = [x for x in domain.keys() if x not in right_endo_vars and x != exo_var]
     if len(left_var) != 1:
@@ -141,7 +142,7 @@ def canonical_deterministic(domain:Dict, exo_var:Hashable, right_endo_vars:list=
     domEndoPa = dutils.assingment_space(dutils.subdomain(domain, *right_endo_vars))
     m = len(domEndoPa)
 
-    new_values = list(product(*[domain[left_var]] * m))
+    new_values = list(chain(*product(*[domain[left_var]] * m)))
     new_dom = {**dutils.subdomain(domain, left_var), **dutils.subdomain(domain, exo_var), **dutils.subdomain(domain, *right_endo_vars)}
 
     return DeterministicFactor(domain=new_dom, values=new_values, left_vars=[left_var], vtype=vtype)
-- 
2.43.0


From 06b6acf40274b8a0663575af7053495d808b4759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 07/42] fix: DeterministicFactor.from_data_frame neither
 modifies the table nor depends on the column order

---
 bcause/factors/deterministic.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index 61189d8..c69cc61 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -45,14 +45,17 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         columns = list(df.columns)
         left_var = left_var or columns[-1]
 
+        df = df.copy()
         for v in columns:
             df[v] = pd.Categorical(df[v], domains[v])
 
-        df = df.sort_values(by=columns)
+        right_vars = [v for v in columns if v != left_var]
+        if len(right_vars) > 0:
+            df = df.sort_values(by=right_vars)
 
         domf = dutils.subdomain(domains, *columns)
         values = list(df[left_var].values)
-        return DeterministicFactor(domf, left_vars=left_var, values=values)
+        return DeterministicFactor(domf, left_vars=[left_var], values=values)
 
     @property
     def domain(self) -> Dict:
-- 
2.43.0


From 276f928f61d317558bfbe8a95cff04618dbcf397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 08/42] fix: values_array of factors without right variables

---
 bcause/factors/deterministic.py | 2 +-
 bcause/factors/factor.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/deterministic.py b/bcause/factors/deterministic.py
index c69cc61..2fb9693 100644
--- a/bcause/factors/deterministic.py
+++ b/bcause/factors/deterministic.py
@@ -72,7 +72,7 @@ class DeterministicFactor(bf.DiscreteFactor, bf.ConditionalFactor):
         return MultinomialFactor(self.domain, right_vars=self.right_vars, values=values, vtype=self.vtype)
 
     def values_array(self, var_order = None) -> np.array:
-        return super().values_array(var_order or self.right_vars)
+        return super().values_array(self.right_vars if var_order is None else var_order)
 
     def constant(self, left_value):
         new_dom = self.left_domain
diff --git a/bcause/factors/factor.py b/bcause/factors/factor.py
index e7cc9aa..233a5b0 100644
--- a/bcause/factors/factor.py
+++ b/bcause/factors/factor.py
@@ -100,7 +100,7 @@ class DiscreteFactor(Factor):
         return self.store.values_dict
 
     def values_array(self, var_order = None) -> np.array:
-        var_order  = var_order or list(self.domain.keys())
+        if var_order is None: var_order = list(self.domain.keys())
         dom_order = OrderedDict([(v,self.domain[v]) for v in var_order])
         shape = [len(dom_order[v]) for v in var_order]
         return np.array([self.store.get_value(**s)
-- 
2.43.0


From 83fe5e550937d5b13206cc86758aea2cd3c45a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 09/42] fix: a variable given by its name does not match
 variables whose name is contained in it

---
 bcause/factors/factor.py | 4 ++++
 bcause/models/pgmodel.py | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/bcause/factors/factor.py b/bcause/factors/factor.py
index 233a5b0..7afa68c 100644
--- a/bcause/factors/factor.py
+++ b/bcause/factors/factor.py
@@ -143,6 +143,10 @@ class ConditionalFactor(Factor):
         return {v:s for v,s in self.domain.items() if v in self.left_vars}
 
     def set_variables(self, variables, left_vars, right_vars):
+        # a single variable name is not a sequence of variables
+        if isinstance(left_vars, str): left_vars = [left_vars]
+        if isinstance(right_vars, str): right_vars = [right_vars]
+
         if left_vars is None and right_vars is None:
             # all the variables are in the left side
             left_vars, right_vars = variables, []
diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 53d2f2c..6fe2344 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -13,6 +13,7 @@ from networkx import relabel_nodes
 
 import bcause.factors.factor as bf
 import bcause.util.graphutils as gutils
+from bcause.util.arrayutils import as_lists
 
 from bcause.models.sampling import forward_sampling
 
@@ -138,9 +139,11 @@ class DiscreteDAGModel(PGModel):
 
 
     def get_domains(self, variables):
+        variables = as_lists(variables)
         return {v:d for v,d in self._domains.items() if v in variables}
 
     def get_varsizes(self, variables):
+        variables = as_lists(variables)
         return {v:len(d) for v,d in self._domains.items() if v in variables}
 
 
-- 
2.43.0


From 85f47d62c0f5634c442e846c4dbabe32a4718e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 10/42] fix: DAGs given as strings: isolated nodes, single
 nodes, structural causal models

---
 bcause/models/cmodel.py   | 2 +-
 bcause/util/graphutils.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 0011e02..a9cf8eb 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -148,7 +148,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
     def __init__(self, dag:Union[nx.DiGraph,str], factors:Union[dict,list] = None, endogenous:Iterable = None,
                  cast_multinomial:bool = True, check_factors:bool = True):
         self._initialize(dag)
-        self._endogenous = endogenous or [x for x in dag if len(list(dag.predecessors(x)))>0]
+        self._endogenous = endogenous or [x for x in self.graph if len(list(self.graph.predecessors(x)))>0]
         self._cast_multinomial = cast_multinomial
         self._check_factors = check_factors
 
diff --git a/bcause/util/graphutils.py b/bcause/util/graphutils.py
index ea2bc2e..4ca651a 100644
--- a/bcause/util/graphutils.py
+++ b/bcause/util/graphutils.py
@@ -20,15 +20,18 @@ def dag2str(dag: nx.DiGraph) -> str:
 
 
 def str2dag(str_dag: str) -> nx.DiGraph:
-    arcs = []
-    s = str_dag[1:-1].split("][")[1]
+    nodes, arcs = [], []
     for s in str_dag[1:-1].split("]["):
+        x = s
         if "|" in s:
             x, right_vars = s.split("|")
             for y in right_vars.split(":"):
                 arcs.append((y, x))
+        nodes.append(x)
 
-    return nx.DiGraph(arcs)
+    dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(nodes)  # also the isolated ones
+    return dag
 
 
 def _barren_info(dag: nx.DiGraph, S=None):
-- 
2.43.0


From e6dfa4e2bdfac072300cb866f21c8e3cf7ba309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 11/42] fix: submodel, with only the endogenous variables that
 it contains

---
 bcause/models/cmodel.py  | 2 +-
 bcause/models/pgmodel.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index a9cf8eb..6571ea8 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -157,7 +157,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
     def builder(self, **kwargs):
         if "cast_multinomial" not in kwargs: kwargs["cast_multinomial"] = self._cast_multinomial
-        if "endogenous" not in kwargs: kwargs["endogenous"] = self.endogenous
+        if "endogenous" not in kwargs: kwargs["endogenous"] = [v for v in self.endogenous if v in kwargs["dag"]]
         return StructuralCausalModel(**kwargs)
 
     @staticmethod
diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index 6fe2344..ce87cea 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -183,7 +183,7 @@ class DiscreteDAGModel(PGModel):
     def submodel(self, nodes:list) -> DiscreteDAGModel:
         new_dag = self.graph.subgraph(nodes)
         new_factors = {x: f for x, f in self.factors.items() if x in nodes}
-        return self.builder(new_dag, new_factors)
+        return self.builder(dag=new_dag, factors=new_factors)
 
     def rename_vars(self, names_mapping: dict) -> DiscreteDAGModel:
         logging.debug(f"Renaming variables as {names_mapping}")
-- 
2.43.0


From 50200189e03088d4e038839bd647d9e57ae7dc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 12/42] fix: fusion of models keeps isolated nodes
 (counterfactuals under interventions on leaves)

---
 bcause/models/transform/combination.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/models/transform/combination.py b/bcause/models/transform/combination.py
index 5b0ee4d..317a59b 100644
--- a/bcause/models/transform/combination.py
+++ b/bcause/models/transform/combination.py
@@ -18,6 +18,7 @@ def fusion_roots(models, on, **builder_kargs):
     new_factors = models[0].get_factors(*on)
     for m in models:
         for x ,y in m.graph.edges: new_dag.add_edge(x ,y)
+        for v in m.variables: new_dag.add_node(v)
         new_factors.extend(m.get_factors(*set(m.variables).difference(on)))
 
     return models[0].builder(dag=new_dag, factors=new_factors, **builder_kargs)
-- 
2.43.0


From ba9fe7c22a4a84cd59c88a97bdacfc2b0d9906c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 13/42] fix: to_multinomial keeps the endogenous variables
 (causal inference on intervened models)

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 6571ea8..bb4afa5 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -183,7 +183,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         super().set_factor(var, f)
 
     def to_multinomial(self) -> StructuralCausalModel:
-        return StructuralCausalModel(dag=self.graph, factors=self.factors, cast_multinomial=True)
+        return StructuralCausalModel(dag=self.graph, factors=self.factors, endogenous=self.endogenous, cast_multinomial=True)
 
     @property
     def has_deterministic(self):
-- 
2.43.0


From d6fd3235a811c06c20737c7a39d2d107ad80e0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 14/42] fix: compile a query without evidence

---
 bcause/inference/probabilistic/datainference.py | 1 +
 bcause/inference/probabilistic/probabilistic.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index b0be195..69c1640 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -19,6 +19,7 @@ class LaplaceInference(ProbabilisticInference):
     def compile(self, target, evidence=None) -> Inference:
 
         target = as_lists(target)
+        evidence = evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 245eb76..31eaf41 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -18,6 +18,7 @@ class ProbabilisticInference(Inference):
     def compile(self, target, evidence=None) -> Inference:
 
         target = as_lists(target)
+        evidence = evidence or dict()
         if len(set(target)) != len(target): raise ValueError("Repeated variables in target")
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
-- 
2.43.0


From 876f4261ee3ab97000563c8ab53d623e9042bfa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 15/42] fix: partial renaming of the variables of a structural
 causal model

---
 bcause/models/cmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index bb4afa5..1800c64 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -201,7 +201,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         logging.debug(f"Renaming variables as {names_mapping}")
         new_dag = relabel_nodes(self.graph, names_mapping)
         new_factors = [f.rename_vars(names_mapping) for f in self.factors.values()]
-        new_endogenous = [names_mapping[x] for x in self.endogenous]
+        new_endogenous = [names_mapping.get(x, x) for x in self.endogenous]
         return StructuralCausalModel(dag=new_dag, factors=new_factors, endogenous=new_endogenous, cast_multinomial=self._cast_multinomial)
 
 
-- 
2.43.0


From b33c9e7d106c39c607156cba58c695176db900fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 16/42] fix: sampleEndogenous with as_pandas=False

---
 bcause/models/cmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 1800c64..b0724a9 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -247,7 +247,8 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
 
 
     def sampleEndogenous(self, n_samples: int, as_pandas = True) -> Union[list[Dict], pd.DataFrame]:
-        return self.sample(n_samples, as_pandas)[self.endogenous]
+        data = self.sample(n_samples)[self.endogenous]
+        return data if as_pandas else data.to_dict("records")
 
     def log_likelihood(self, data, variables=None):
         bn = self.get_qbnet()
-- 
2.43.0


From c0a5cccb644c00e05b5464199ea2658d789f4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 17/42] fix: c-components include the endogenous variables
 without exogenous parents

---
 bcause/models/cmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index b0724a9..72d5fbd 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -75,7 +75,9 @@ class DiscreteCausalDAGModel(DiscreteDAGModel):
         :return: object of class nx.DiGraph
         '''
         exo_edges = [(x,y) for x,y in self.graph.edges if self.is_exogenous(x)]
-        return DiGraph(self.graph.edge_subgraph(exo_edges).edges)
+        g = DiGraph(self.graph.edge_subgraph(exo_edges).edges)
+        g.add_nodes_from(self.graph.nodes)  # variables without exogenous parents (or children) are components too
+        return g
 
     @property
     def ccomponents(self):
-- 
2.43.0


From 121d40faa7f7c5767edb81b8313fe269d27b97c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 18/42] fix: Q-graph follows one topological order, hence it is
 acyclic

---
 bcause/models/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/models/info.py b/bcause/models/info.py
index a7a4f44..38a2b10 100644
--- a/bcause/models/info.py
+++ b/bcause/models/info.py
@@ -37,7 +37,7 @@ def get_qgraph(model:DiscreteCausalDAGModel):
         for i in range(len(c_comp)):
             x = c_comp[i]
             for p in list(pa_c) + c_comp[0:i]:
-                if p not in nx.descendants(model.endo_graph, x):
+                if order.index(p) < order.index(x):
                     g.add_edge(p, x)
 
     return g
-- 
2.43.0


From 00995e62c34405a977a1b99070f5ee854b21c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 19/42] fix: add_models does not modify the list given by the
 user

---
 bcause/inference/causal/multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 5f10039..39146ba 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -33,7 +33,7 @@ class CausalMultiInference(CausalInference):
 
     def add_models(self, models: list[StructuralCausalModel]):
         models = models or []
-        self._models += models
+        self._models = self._models + models
         self._compiled = False
 
     def compile(self, *args, **kwargs) -> Inference:
-- 
2.43.0


From 5b7849f4a98a538b6b7b0150bdb2449e056d086c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 20/42] fix: probabilities of necessity and sufficiency with
 multiple models before any other query

---
 bcause/inference/causal/multi.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bcause/inference/causal/multi.py b/bcause/inference/causal/multi.py
index 39146ba..3eab13a 100644
--- a/bcause/inference/causal/multi.py
+++ b/bcause/inference/causal/multi.py
@@ -23,6 +23,11 @@ class CausalMultiInference(CausalInference):
         self._causal_inf_fn = causal_inf_fn
 
 
+    @property
+    def model(self) -> StructuralCausalModel:
+        if not self._compiled: self.compile()
+        return self._model
+
     @property
     def models(self) -> list[StructuralCausalModel]:
         return self._models
-- 
2.43.0


From 2837eb05953472d1fb3e5b0b09c5318ef3d0ef94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:53 +0000
Subject: [PATCH 21/42] fix: identify the true and false states of boolean
 variables

---
 bcause/util/domainutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/domainutils.py b/bcause/util/domainutils.py
index d8e7039..8ffea39 100644
--- a/bcause/util/domainutils.py
+++ b/bcause/util/domainutils.py
@@ -100,7 +100,7 @@ def identify_true_false(varname, dom):
     if len(set(dtypes))>1: raise ValueError("Cannot identify true/false states: different data types")
 
     tf = []
-    if dtypes[0] in [int, float]:
+    if dtypes[0] in [int, float, bool]:
         tf = [d for d in dom if d==True] + [d for d in dom if d==False]
     elif dtypes[0] == str:
         tf = [d for d in dom if d.lower() == varname.lower()+"1"] + [d for d in dom if d.lower() == varname.lower()+"0"] + [d for d in dom if d.lower() == varname.lower()+"2"]
-- 
2.43.0


From 7138afda26c91691d1fcbb493374ff64f19f5923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 22/42] fix: conversion to and from pgmpy with several parents,
 any variable order and isolated variables

---
 bcause/conversion/pgmpy.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/bcause/conversion/pgmpy.py b/bcause/conversion/pgmpy.py
index cd54587..038c82e 100644
--- a/bcause/conversion/pgmpy.py
+++ b/bcause/conversion/pgmpy.py
@@ -22,25 +22,22 @@ def toMultinomialFactor(factor : pfd.TabularCPD, vtype=None) -> bfd.MultinomialF
     right_vars = [v for v in factor.variables if v != factor.variable]
     return bfd.MultinomialFactor(domain, data, right_vars=right_vars, vtype=vtype)
 
-def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
+def toTabularCPT(f : bfd.MultinomialFactor, domains=None) -> pfd.TabularCPD:
     v = list(f.left_domain.keys())[0]
-    card = f.store.cardinality_dict
-    values = f.values_array()
-    if np.ndim(values)<2:
-        values = np.expand_dims(values, axis=0)
+    parents = list(f.right_vars)
+    domain = {x: (domains or f.domain)[x] for x in [v] + parents}
+    card = {x: len(d) for x, d in domain.items()}
 
-    if np.ndim(values) > 2:
-        shape = values.shape
-        values = values.reshape(np.prod(shape[:-1]), shape[0])
+    # one row for each state of v, one column for each configuration of the parents
+    values = np.reshape([f.get_value(**s) for s in assingment_space(domain)], (card[v], -1))
 
     args = dict(
         variable = v,
         variable_card = card[v],
-        values = values.T,
-        state_names = f.domain
+        values = values,
+        state_names = domain
     )
 
-    parents = f.right_vars
     if len(parents)>0:
         args["evidence"] = parents
         args["evidence_card"] = [card[p] for p in parents]
@@ -51,6 +48,7 @@ def toTabularCPT(f : bfd.MultinomialFactor) -> pfd.TabularCPD:
 def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
     vtype = vtype or DataStore.DEFAULT_STORE
     dag = DiGraph(orig.in_edges)
+    dag.add_nodes_from(orig.nodes)  # also the isolated ones
     factors = {f.variable:toMultinomialFactor(f, vtype) for f in orig.cpds}
     import bcause.models as bm
     return bm.BayesianNetwork(dag, factors)
@@ -58,5 +56,5 @@ def toBCauseBNet(orig : pm.BayesianNetwork, vtype=None) -> 'bm.BayesianNetwork':
 
 def toPgmpyBNet(orig : 'bm.BayesianNetwork') -> pm.BayesianNetwork:
     dest = pm.BayesianNetwork(orig.graph)
-    dest.add_cpds(*[toTabularCPT(f) for f in orig.factors.values()])
+    dest.add_cpds(*[toTabularCPT(f, orig.domains) for f in orig.factors.values()])
     return dest
\ No newline at end of file
-- 
2.43.0


From 1ac0aeb268601daf07c195f9028b89cf40f1045e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:30 +0000
Subject: [PATCH 23/42] fix: uai reader: numbers in scientific notation,
 isolated variables, states not starting at 0

---
 bcause/readwrite/bnread.py  | 3 ++-
 bcause/readwrite/scmread.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bcause/readwrite/bnread.py b/bcause/readwrite/bnread.py
index cc76063..a4ea30e 100644
--- a/bcause/readwrite/bnread.py
+++ b/bcause/readwrite/bnread.py
@@ -48,7 +48,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
@@ -73,6 +73,7 @@ def from_uai(filepath, reverse_values=True, var_prefix="V", init_var_id=0, init_
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)  # also the isolated ones
 
     # factors in the model
     factors = dict()
diff --git a/bcause/readwrite/scmread.py b/bcause/readwrite/scmread.py
index baec44d..8d47de9 100644
--- a/bcause/readwrite/scmread.py
+++ b/bcause/readwrite/scmread.py
@@ -36,7 +36,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
     def get_numbers(path):
         with open(path) as f:
             for line in f:
-                for v in re.findall(r"[-+]?(?:\d*\.*\d+E?[-+]?\d*)", line):
+                for v in re.findall(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?", line):
                     yield v
 
     numbers = get_numbers(filepath)
@@ -61,6 +61,7 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         assert varnames[int(next(numbers))] == v
 
     dag = nx.DiGraph(arcs)
+    dag.add_nodes_from(varnames)  # also the isolated ones
 
     # factors in the model
     factors = dict()
@@ -70,6 +71,8 @@ def from_uai(filepath, reverse_values=False, var_prefix="V", init_var_id=0, init
         if len(list(dag.predecessors(v))) == 0:
             factors[v] = MultinomialFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
         else:
+            # the values are the positions of the states
+            values = [dom[v][int(i)] for i in values]
             factors[v] = DeterministicFactor(dutils.var_parents_domain(dom, dag, v), left_vars=v, values=values)
 
     from bcause.models.cmodel import StructuralCausalModel
-- 
2.43.0


From 0586f50305d824180ca50f2a280e7f5a794b513f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 24/42] fix: learning does not add columns to the user's
 dataset

---
 bcause/learning/parameter/expectation_maximization.py | 3 ++-
 bcause/learning/parameter/gradient.py                 | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index e4d2924..052ac7d 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -77,7 +77,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         return new_probs
 
     def _process_data(self, data: pd.DataFrame):
-        # add missing variables
+        # add missing variables (not in the user's dataset)
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index c7873fe..a9a2d0b 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -149,7 +149,8 @@ class GradientLikelihood(IterativeParameterLearning):
         return P_v_pav_key
 
     def _process_data(self, data: pd.DataFrame):
-        # add missing variables
+        # add missing variables (not in the user's dataset)
+        data = data.copy()
         missing_vars = [v for v in self.prior_model.variables if v not in data.columns]
         for v in missing_vars: data[v] = float("nan")
 
-- 
2.43.0


From 2fcc0098bf419c193baaec99f305d96aaafcf698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 25/42] fix: a learning run starts afresh, whatever was run
 before with the same object

---
 bcause/learning/parameter/expectation_maximization.py | 2 ++
 bcause/learning/parameter/gradient.py                 | 1 +
 2 files changed, 3 insertions(+)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 052ac7d..7ed1c59 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -23,6 +23,8 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
+        self._converged_vars = set()
         self._process_data(data)
 
     def _calculate_updated_factors(self):
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index a9a2d0b..ae58546 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -44,6 +44,7 @@ class GradientLikelihood(IterativeParameterLearning):
 
     def initialize(self, data: pd.DataFrame, **kwargs):
         self._model = self.prior_model.copy()
+        self._model_evolution = [self.prior_model]
         self._process_data(data)
 
     def _stop_learning(self) -> bool:
-- 
2.43.0


From dc55aa06a495e7195bf496815528991f4adbb5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 26/42] fix: EM keeps updating the variables that one step left
 unchanged until all of them have converged

---
 .../parameter/expectation_maximization.py       | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 7ed1c59..240d8eb 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -59,7 +59,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         #print("===")
         self._inf = self._inference_method(self._model)
         pcounts = self._get_pseudocounts_dict()
-        for v in set(self.trainable_vars).difference(self._converged_vars):
+        for v in set(self.trainable_vars):
 
             for obs, c in self._get_obs_counts(v):
                 relevant = [v] + self._prior_model.get_parents(v)
@@ -73,7 +73,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
     def _maximization(self, pcounts, **kwargs):
         new_probs = dict()
-        for v in set(self.trainable_vars).difference(self._converged_vars):
+        for v in set(self.trainable_vars):
             joint_counts = pcounts[v]
             new_probs[v] = joint_counts / (joint_counts.marginalize(v))
         return new_probs
@@ -94,13 +94,14 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def _stop_learning(self) -> bool:
         from scipy.special import rel_entr
 
+        # variables that did not change in the last step (they can change again while others do)
+        self._converged_vars = set()
         for v in self._trainable_vars:
-            if v not in self._converged_vars:
-                P = self.model_evolution[-2].factors[v]
-                Q = self.model_evolution[-1].factors[v]
-                kl_div = sum(rel_entr(P.values, Q.values))
-                if kl_div == 0:
-                    self._converged_vars = self._converged_vars | {v}
+            P = self.model_evolution[-2].factors[v]
+            Q = self.model_evolution[-1].factors[v]
+            kl_div = sum(rel_entr(P.values, Q.values))
+            if kl_div == 0:
+                self._converged_vars = self._converged_vars | {v}
         return set(self._trainable_vars) == self._converged_vars
 
 
-- 
2.43.0


From 3f03126c434794f947cf0ff61f743d8e66ba770d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 27/42] fix: to_counts counts the missing values

---
 bcause/util/datautils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/util/datautils.py b/bcause/util/datautils.py
index b68b491..bc2576c 100644
--- a/bcause/util/datautils.py
+++ b/bcause/util/datautils.py
@@ -6,13 +6,13 @@ def to_counts(domains, data=None, normalize=False):
     domains = domains.copy()
     if data is not None:
         data = data[list(domains.keys())]
-        dcounts = data.value_counts(dropna=False).to_dict()
         # Add None where missing values
         for x in [v for v in data.columns if data.isna().any()[v]]:
             if not all([type(v)==str for v in domains[x]]):
                 raise ValueError("Missing values are only compatible in variables with str-like domains")
             domains[x] = domains[x] + ["nan"]
         data = data.fillna("nan")
+        dcounts = data.value_counts(dropna=False).to_dict()
     else:
         dcounts = dict()
 
-- 
2.43.0


From 98475ab1e9d0c8949b3061eedf38053ad8031d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:55 +0000
Subject: [PATCH 28/42] fix: aggregator pairs each model with its learning
 object also in parallel runs

---
 bcause/learning/aggregator/aggregator.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bcause/learning/aggregator/aggregator.py b/bcause/learning/aggregator/aggregator.py
index 032051d..db311fe 100644
--- a/bcause/learning/aggregator/aggregator.py
+++ b/bcause/learning/aggregator/aggregator.py
@@ -50,10 +50,14 @@ class ModelAggregator(ABC):
     def generate(self, num_models : int):
         if num_models<1: raise ValueError(f"Wrong number of models: {num_models}")
         if not self._parallel:
-            self._generated_models += [self._single_generate(i) for i in range(num_models)]
+            optimizers = [self._single_generate(i) for i in range(num_models)]
         else:
             from joblib import Parallel, delayed
-            self._generated_models +=  Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(i) for i in range(num_models))
+            optimizers = Parallel(n_jobs=-1, backend="threading") (delayed(self._single_generate)(i) for i in range(num_models))
+
+        # same order for the models and for the learning objects, whatever the order in which they finished
+        self._learn_objects += optimizers
+        self._generated_models += [optimizer.model for optimizer in optimizers]
 
     @abstractmethod
     def _single_generate(self, i):
@@ -76,8 +80,7 @@ class ModelAggregatorEM(ModelAggregator):
     def _single_generate(self, i):
         optimizer = ExpectationMaximization(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars)
         optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+        return optimizer
 
 class SimpleModelAggregatorEM(SimpleModelAggregator, ModelAggregatorEM):
 
@@ -93,8 +96,7 @@ class ModelAggregatorGD(ModelAggregator):
     def _single_generate(self, i):
         optimizer = GradientLikelihood(self._model.randomize_factors(self._trainlable_vars, allow_zero=False), trainable_vars=self._trainlable_vars, tol=self._tol)
         optimizer.run(self._data, max_iter=self._max_iter)
-        self._learn_objects.append(optimizer)
-        return optimizer.model
+        return optimizer
 
 
 class SimpleModelAggregatorGD(SimpleModelAggregator, ModelAggregatorGD):
-- 
2.43.0


From 3e764d8299487231c1b32d18ccc69b05b48b5812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:43 +0000
Subject: [PATCH 29/42] fix: reject a factor whose domains are inconsistent
 with the factors of the children

---
 bcause/models/pgmodel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bcause/models/pgmodel.py b/bcause/models/pgmodel.py
index ce87cea..264dc51 100644
--- a/bcause/models/pgmodel.py
+++ b/bcause/models/pgmodel.py
@@ -65,6 +65,10 @@ class PGModel(ABC):
             for v in f.variables:
                 if v in self._domains and self._domains[v] != None:
                         if set(self._domains[v]) != set(f.domain[v]): raise ValueError(f"Inconsistent domain for {v} when setting {var}")
+                # the domain can be known only from the factors of its children
+                for x, g in self._factors.items():
+                    if x != var and g is not None and v in g.domain and set(g.domain[v]) != set(f.domain[v]):
+                        raise ValueError(f"Inconsistent domain for {v} when setting {var}")
 
         # Update domains
         if var not in self._domains or self._domains[var] == None:
-- 
2.43.0


From dee86d18501faac96981839125d2fbaf7cf0ae96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:55 +0000
Subject: [PATCH 30/42] fix: interval factors from precise ones that list
 variables or states in different order

---
 bcause/factors/imprecise.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/imprecise.py b/bcause/factors/imprecise.py
index 002b5e8..0ece9a0 100644
--- a/bcause/factors/imprecise.py
+++ b/bcause/factors/imprecise.py
@@ -57,7 +57,9 @@ class IntervalProbFactor(bf.DiscreteFactor, bf.ConditionalFactor):
     def from_precise(list_factors):
         dom = list_factors[0].domain
         left_vars = list_factors[0].left_vars
-        if not all(list_factors[0].domain == f.domain for f in list_factors):
+        # same variables and states, in any order (values are taken by state)
+        states = [{v: set(s) for v, s in f.domain.items()} for f in list_factors]
+        if not all(states[0] == s for s in states):
             raise ValueError("Domains must be identical for building an IntervalFactor")
 
         values = np.array([[f.get_value(**obs) for f in list_factors] for obs in assingment_space(dom)])
-- 
2.43.0


From feeaab335e3ca79883f173da16b33f83bdb31aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:23 +0000
Subject: [PATCH 31/42] fix: a rejected query neither replaces the compiled one
 nor is answered partially

---
 bcause/inference/probabilistic/datainference.py | 3 +++
 bcause/inference/probabilistic/probabilistic.py | 8 +++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index 69c1640..499201f 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -24,6 +24,9 @@ class LaplaceInference(ProbabilisticInference):
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
+        unknown = set(target).difference(self._domains) | set(target).union(evidence).difference(self.model.columns)
+        if len(unknown) > 0: raise ValueError(f"Variables without data or domain: {unknown}")
+
         self._target = target
         self._evidence = evidence or dict()
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 31eaf41..10fc076 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -23,10 +23,12 @@ class ProbabilisticInference(Inference):
         if not set(target).isdisjoint(evidence.keys()):
             raise ValueError(f"Target {target} and evidence are not disjoint {evidence.keys()}")
 
-        self._target = target
-        self._evidence = evidence or dict()
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
-        assert_dag_with_nodes(self.model.graph, self._target | self._evidence.keys())
+        assert_dag_with_nodes(self.model.graph, target | evidence.keys())
+
+        # only a valid query replaces the previous one
+        self._target = target
+        self._evidence = evidence
 
         self._inference_model = self._preprocess()
         self._compiled = True;
-- 
2.43.0


From 401c51c2b7ea66f9a3715551b331fc5327548566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:24 +0000
Subject: [PATCH 32/42] fix: learning and randomisation keep the storage of the
 factors of the model

---
 bcause/learning/parameter/expectation_maximization.py | 2 +-
 bcause/learning/parameter/gradient.py                 | 2 +-
 bcause/models/cmodel.py                               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 240d8eb..41703f9 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -36,7 +36,7 @@ class AbastractExpectationMaximization(IterativeParameterLearning):
             from bcause.util import domainutils as dutils
             pa = self.prior_model.get_parents(v)
             dom = dutils.subdomain(self.prior_model.domains, *([v] + pa))
-            return MultinomialFactor(dom, values=0)
+            return MultinomialFactor(dom, values=0, vtype=self.prior_model.factors[v].vtype)
 
         return {v: get_pcounts(v) for v in self.trainable_vars}
 
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index ae58546..f1992d2 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -78,7 +78,7 @@ class GradientLikelihood(IterativeParameterLearning):
         N_bmVbmY, P_bmVbmYu = self._compute_N_and_P(bmV, bmY, data, m, U)
 
         results = self.fitPMF(initial_params, N_bmVbmY, P_bmVbmYu, **kwargs)
-        updated_factor = MultinomialFactor(m.get_domains(U), values=results['params'])
+        updated_factor = MultinomialFactor(m.get_domains(U), values=results['params'], vtype=m.factors[U].vtype)
         updated_factor.trajectory = results['trajectory'] # the trajectory of the iterations in the optimization process
 
         return updated_factor
diff --git a/bcause/models/cmodel.py b/bcause/models/cmodel.py
index 72d5fbd..fa5ba39 100644
--- a/bcause/models/cmodel.py
+++ b/bcause/models/cmodel.py
@@ -212,7 +212,7 @@ class StructuralCausalModel(DiscreteCausalDAGModel):
         m = self if in_place else self.copy()
         for x in variables:
             dom = dutils.var_parents_domain(m.domains, m.graph, x)
-            f = random_multinomial(dom, [v for v in dom.keys() if x != v], allow_zero=allow_zero)
+            f = random_multinomial(dom, [v for v in dom.keys() if x != v], vtype=m.factors[x].vtype, allow_zero=allow_zero)
             m.set_factor(x, f)
         return m
 
-- 
2.43.0


From 3a17e8a1bb89780e263a4497239a1406f5a88aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:24 +0000
Subject: [PATCH 33/42] fix: EM with a latent variable that is not related to
 any observed one

---
 bcause/learning/parameter/expectation_maximization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 41703f9..d5281ce 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -51,7 +51,10 @@ class ExpectationMaximization(AbastractExpectationMaximization):
 
     def _get_obs_counts(self, target):
         obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
-        return [(obs, sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()]))) for obs in obs_blanket]
+        def count(obs):
+            if len(obs) == 0: return len(self._data)    # nothing observed is related to the target
+            return sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()]))
+        return [(obs, count(obs)) for obs in obs_blanket]
 
 
 
-- 
2.43.0


From f10255ecfc1ef94a4a660926ca43523a1a1629ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:18 +0000
Subject: [PATCH 34/42] fix: elimination heuristics do not empty the list of
 variables they are given

---
 bcause/inference/ordering.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/inference/ordering.py b/bcause/inference/ordering.py
index 04a6999..51f042b 100644
--- a/bcause/inference/ordering.py
+++ b/bcause/inference/ordering.py
@@ -38,6 +38,7 @@ def _get_elim_ordering(dag, varsizes=None, to_remove=None, heuristic=Heuristic.M
             moral.nodes[v]["size"] = varsizes[v]
 
     ordering = []
+    to_remove = list(to_remove)  # the list given by the user is not consumed
 
     while len(to_remove)>0:
         # compute costs
-- 
2.43.0


From e448014853b1d410ab7407add9d2f05594e36930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:25 +0000
Subject: [PATCH 35/42] fix: conditional sampling when the observations list
 the variables in different orders

---
 bcause/factors/mulitnomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index baf24a4..4c7666d 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -148,7 +148,7 @@ class MultinomialFactor(bf.DiscreteFactor, bf.ConditionalFactor):
             raise ValueError("sample size cannot be lower than 1.")
         df_obs = pd.DataFrame(observations).drop_duplicates()
         factors = {tuple(val_obs):self.R(**dict(list(zip(list(df_obs.keys()), list(val_obs))))) for val_obs in df_obs.values}
-        return [factors[tuple(obs.values())]._sample(varnames=varnames) for obs in observations]
+        return [factors[tuple(obs[v] for v in df_obs.columns)]._sample(varnames=varnames) for obs in observations]
 
 
     def _sample(self, varnames:bool=True) -> tuple:
-- 
2.43.0


From 4b5aba4917f1b84cb29856a2b4e4e6176ae06340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:26 +0000
Subject: [PATCH 36/42] fix: random deterministic factors without right
 variables

---
 bcause/factors/mulitnomial.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bcause/factors/mulitnomial.py b/bcause/factors/mulitnomial.py
index 4c7666d..91964e4 100644
--- a/bcause/factors/mulitnomial.py
+++ b/bcause/factors/mulitnomial.py
@@ -236,6 +236,7 @@ def uniform_multinomial(domain:Dict, right_vars:list=None, vtype=None):
 
 def random_deterministic(dom:Dict, right_vars:list=None, vtype=None):
     vtype = vtype or DataStore.DEFAULT_STORE
+    right_vars = right_vars or []
     data = np.zeros([len(d) for d in dom.values()])
     for idx in [list(s.values()) for s in random_assignment(to_numeric_domains(dom), right_vars)]:
         set_value(1., data, idx)
-- 
2.43.0


From 0d11ac4a37f14fa33b4a5cfb5dc6def81e730ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:21 +0000
Subject: [PATCH 37/42] fix: choose the trainable variables from the data of
 each run

---
 bcause/learning/parameter/expectation_maximization.py | 4 ++--
 bcause/learning/parameter/gradient.py                 | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index d5281ce..4a5fceb 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -45,7 +45,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
     def __init__(self, prior_model: DiscreteDAGModel, trainable_vars: list = None,
                  inference_method=VariableElimination):
         self._prior_model = prior_model
-        self._trainable_vars = trainable_vars
+        self._trainable_vars = self._given_trainable_vars = trainable_vars
         self._inference_method = inference_method
         self._converged_vars = set()
 
@@ -88,7 +88,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()])
+        self._trainable_vars = self._given_trainable_vars or list(data.columns[data.isna().any()])
 
         self._datadeps = DataDepAnalysis(self.model.graph, data)
         self._variables = list(data.columns)
diff --git a/bcause/learning/parameter/gradient.py b/bcause/learning/parameter/gradient.py
index f1992d2..1825c2f 100644
--- a/bcause/learning/parameter/gradient.py
+++ b/bcause/learning/parameter/gradient.py
@@ -38,7 +38,7 @@ class GradientLikelihood(IterativeParameterLearning):
 
     def __init__(self, prior_model: StructuralCausalModel, trainable_vars: list = None, tol : float = 1e-8):
         self._prior_model = prior_model
-        self._trainable_vars = trainable_vars
+        self._trainable_vars = self._given_trainable_vars = trainable_vars
         self._tol = tol
 
 
@@ -156,7 +156,7 @@ class GradientLikelihood(IterativeParameterLearning):
         for v in missing_vars: data[v] = float("nan")
 
         # Set as trainable variables those with missing
-        self._trainable_vars = self.trainable_vars or list(data.columns[data.isna().any()]) 
+        self._trainable_vars = self._given_trainable_vars or list(data.columns[data.isna().any()]) 
                                                                                             
 
         for v in self._trainable_vars:
-- 
2.43.0


From 54acd028beb7bfab0f9b394efe1946d1d7b149d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:03 +0000
Subject: [PATCH 38/42] fix: treedict stores whose tree is one number (a
 restricted branch that mentions no variable)

---
 bcause/factors/values/treedictstore.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 53cc7da..15c8703 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -23,7 +23,8 @@ class TreeDictStore(DiscreteStore):
         if data is None:
             data = np.zeros(np.prod([len(d) for d in domain.values()]))
         if not isinstance(data, dict):
-            if len(domain)>0 and type(data) not in [dict, OrderedDict]:
+            # a single number is a tree that does not depend on any variable
+            if len(domain)>0 and np.ndim(data)>0:
                 data = build_default_tree(domain, data)
         def builder(**kwargs):
             return TreeDictStore(**kwargs)
-- 
2.43.0


From e5da363ef80f6f9dca73ace63e30e8c32e3b7fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:18 +0000
Subject: [PATCH 39/42] fix: set_value of treedict stores changes only the
 given state of a branch that does not mention the variable

---
 bcause/factors/values/treedictstore.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bcause/factors/values/treedictstore.py b/bcause/factors/values/treedictstore.py
index 15c8703..6acc002 100644
--- a/bcause/factors/values/treedictstore.py
+++ b/bcause/factors/values/treedictstore.py
@@ -42,12 +42,17 @@ class TreeDictStore(DiscreteStore):
 
     def set_value(self, value, observation):
         def modify_dict(data, observation, value):
-            if not isinstance(data, dict) or len(observation) == 0:
+            if len(observation) == 0:
                 out = value
+            elif not isinstance(data, dict):
+                # the branch does not depend on the observed variables: only the given state changes
+                v, other_obs = list(observation)[0], dict(list(observation.items())[1:])
+                out = treeNode(v, {s: modify_dict(data, other_obs, value) if s == observation[v] else data
+                                   for s in self.domain[v]})
             elif data["var"] not in observation:
                 new_ch = dict()
                 for state, ch in data["children"].items():
-                    new_ch[state] = value if not isinstance(ch, dict) else modify_dict(ch, observation, value)
+                    new_ch[state] = modify_dict(ch, observation, value)
                 out = treeNode(data["var"], new_ch)
 
             else:
-- 
2.43.0


From 341c86a32925b04242fd84eb9b8f9364d317ffe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 40/42] fix: EM counts each row once, and in the observed
 states of the variable and its parents, when cells are missing

---
 .../parameter/expectation_maximization.py     | 25 ++++++++++++-------
 bcause/util/datadeps.py                       | 18 +++++++++++++
 2 files changed, 34 insertions(+), 9 deletions(-)

diff --git a/bcause/learning/parameter/expectation_maximization.py b/bcause/learning/parameter/expectation_maximization.py
index 4a5fceb..dc8cdaf 100644
--- a/bcause/learning/parameter/expectation_maximization.py
+++ b/bcause/learning/parameter/expectation_maximization.py
@@ -1,5 +1,4 @@
 from abc import abstractmethod
-from functools import reduce
 
 import pandas as pd
 
@@ -9,6 +8,7 @@ from bcause.learning.parameter import IterativeParameterLearning
 from bcause.models.cmodel import StructuralCausalModel
 from bcause.models.pgmodel import DiscreteDAGModel
 from bcause.util.datadeps import DataDepAnalysis
+from bcause.util.domainutils import assingment_space
 
 
 
@@ -50,11 +50,8 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         self._converged_vars = set()
 
     def _get_obs_counts(self, target):
-        obs_blanket = self._datadeps.get_minimal_obs_blanket(target)
-        def count(obs):
-            if len(obs) == 0: return len(self._data)    # nothing observed is related to the target
-            return sum(reduce( lambda x,y : x&y, [self._data[v] == s for v,s in obs.items()]))
-        return [(obs, count(obs)) for obs in obs_blanket]
+        # each row is counted once, with what it tells about the variable and its parents
+        return self._datadeps.get_family_obs_counts(target, *self._prior_model.get_parents(target))
 
 
 
@@ -69,7 +66,13 @@ class ExpectationMaximization(AbastractExpectationMaximization):
                 hidden = [x for x in relevant if x not in obs]
 
                 #print(f"{hidden} | {obs}")
-                exp_counts = self._inf.query(target=hidden, evidence=obs) * c
+                exp_counts = self._inf.query(target=hidden, evidence=obs) * c if len(hidden) > 0 else c
+                # counted only in the observed states of the variable and its parents
+                seen = [x for x in relevant if x in obs]
+                if len(seen) > 0:
+                    dom = {x: self._prior_model.domains[x] for x in seen}
+                    values = [float(all(s[x] == obs[x] for x in seen)) for s in assingment_space(dom)]
+                    exp_counts = pcounts[v].builder(domain=dom, values=values, left_vars=seen) * exp_counts
                 pcounts[v] = pcounts[v] + exp_counts
 
         return pcounts
@@ -78,7 +81,11 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         new_probs = dict()
         for v in set(self.trainable_vars):
             joint_counts = pcounts[v]
-            new_probs[v] = joint_counts / (joint_counts.marginalize(v))
+            total = joint_counts.marginalize(v)
+            # the distributions for the configurations of the parents that are not in the data do not change
+            unseen = total.builder(domain=total.domain, values=[float(c == 0) for c in total.values],
+                                   right_vars=total.variables)
+            new_probs[v] = joint_counts / total + self._model.factors[v] * unseen
         return new_probs
 
     def _process_data(self, data: pd.DataFrame):
@@ -102,7 +109,7 @@ class ExpectationMaximization(AbastractExpectationMaximization):
         for v in self._trainable_vars:
             P = self.model_evolution[-2].factors[v]
             Q = self.model_evolution[-1].factors[v]
-            kl_div = sum(rel_entr(P.values, Q.values))
+            kl_div = sum(rel_entr(P.values, [Q.get_value(**s) for s in assingment_space(P.domain)]))
             if kl_div == 0:
                 self._converged_vars = self._converged_vars | {v}
         return set(self._trainable_vars) == self._converged_vars
diff --git a/bcause/util/datadeps.py b/bcause/util/datadeps.py
index 375ba6f..7275058 100644
--- a/bcause/util/datadeps.py
+++ b/bcause/util/datadeps.py
@@ -35,6 +35,24 @@ class DataDepAnalysis(object):
 
         return self.__obs_unique([dsep_filter(d) for d in self._data_unique])
 
+    @cache
+    def get_family_obs_counts(self, *family):
+        '''
+        Parts of the rows that are relevant for the joint posterior of some variables
+        :param family: variables, each of them can be observed or not in each row
+        :return: list of tuples with the distinct observations and the number of rows with each of them
+        '''
+        connected_vars, counts = dict(), dict()
+        for d in self._data.to_dict("records"):
+            obs = {k: v for k, v in d.items() if not pd.isna(v)}
+            pattern = tuple(obs.keys())
+            if pattern not in connected_vars:
+                hidden = [v for v in family if v not in obs]
+                connected_vars[pattern] = set(family).union(*[dcon_nodes(self._dag, v, pattern) for v in hidden])
+            key = tuple((k, v) for k, v in obs.items() if k in connected_vars[pattern])
+            counts[key] = counts.get(key, 0) + 1
+        return [(dict(key), c) for key, c in counts.items()]
+
     @staticmethod
     def __obs_unique(obs_list):
         obs_eq = lambda d1, d2: d1.keys() == d2.keys() and all([d1[k] == d2[k] for k in d1.keys()])
-- 
2.43.0


From 86ea84413237f0788057fffd786927c7c2e818a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:50 +0000
Subject: [PATCH 41/42] fix: counterfactual queries in models with variables
 named like the copies of others

---
 bcause/inference/causal/causal.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/bcause/inference/causal/causal.py b/bcause/inference/causal/causal.py
index d8b1232..51ac897 100644
--- a/bcause/inference/causal/causal.py
+++ b/bcause/inference/causal/causal.py
@@ -37,6 +37,7 @@ class CausalInference(Inference):
             for i in range(len(do)):
                 for k, v in do[i].items():
                     new_do[f"{k}_{i+1}"] = v
+            evidence = {self._factual_names(len(do)).get(k, k): v for k, v in evidence.items()}
             do = new_do
 
 
@@ -57,18 +58,30 @@ class CausalInference(Inference):
 
         else:
             do = self._do if isinstance(self._do, list) else [self._do]
-            models = [self.model]
+            names = self._factual_names(len(do))
+            models = [self.model.rename_vars(names) if len(names) > 0 else self.model]
             for i in range(0, len(do)):
-                mapping = {v: f"{v}_{i+1}" for v in self.model.endogenous}
+                mapping = {v: f"{v}_{i+1}" if self.model.is_endogenous(v) else names.get(v, v) for v in self.model.variables}
                 models.append(self.model.intervention(**do[i]).rename_vars(mapping))
 
             new_endogenous = sum([m.endogenous for m in models],[])
-            new_model = fusion_roots(models, on=self.model.exogenous, endogenous=new_endogenous)
+            new_model = fusion_roots(models, on=models[0].exogenous, endogenous=new_endogenous)
             logging.debug(f"Counterfactual DAG: {new_model.graph.edges}")
 
         return new_model
 
 
+    def _factual_names(self, num_worlds):
+        # other names for the variables that are named like the copy of a variable in a hypothetical world
+        copies = {f"{v}_{i+1}" for v in self.model.endogenous for i in range(num_worlds)}
+        names = dict()
+        for v in self.model.variables:
+            if v in copies:
+                new_name = f"{v}_0"
+                while new_name in copies.union(self.model.variables, names.values()): new_name += "_0"
+                names[v] = new_name
+        return names
+
     @property
     def counterfactual(self):
         return self._counterfactual
-- 
2.43.0


From 6707e075b9f1d5e9b1e6cf8dd041cb8e4edad626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:50 +0000
Subject: [PATCH 42/42] fix: a compiled query keeps its own copy of the
 evidence

---
 bcause/inference/probabilistic/datainference.py | 2 +-
 bcause/inference/probabilistic/probabilistic.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bcause/inference/probabilistic/datainference.py b/bcause/inference/probabilistic/datainference.py
index 499201f..9f604a1 100644
--- a/bcause/inference/probabilistic/datainference.py
+++ b/bcause/inference/probabilistic/datainference.py
@@ -28,7 +28,7 @@ class LaplaceInference(ProbabilisticInference):
         if len(unknown) > 0: raise ValueError(f"Variables without data or domain: {unknown}")
 
         self._target = target
-        self._evidence = evidence or dict()
+        self._evidence = dict(evidence)
         logging.info(f"Starting inference: target={str(target)} evidence={str(evidence)}")
 
         self._inference_model = self._preprocess()
diff --git a/bcause/inference/probabilistic/probabilistic.py b/bcause/inference/probabilistic/probabilistic.py
index 10fc076..6113952 100644
--- a/bcause/inference/probabilistic/probabilistic.py
+++ b/bcause/inference/probabilistic/probabilistic.py
@@ -28,7 +28,7 @@ class ProbabilisticInference(Inference):
 
         # only a valid query replaces the previous one
         self._target = target
-        self._evidence = evidence
+        self._evidence = dict(evidence)
 
         self._inference_model = self._preprocess()
         self._compiled = True;
-- 
2.43.0

