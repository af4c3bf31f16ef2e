From 121412884eea427375955d4df856960ab3ca89f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 01/41] fix: multi-start heuristics must not swallow an
 interrupt that carries no solution

---
 verypy/classic_heuristics/gaskell_savings.py        | 2 +-
 verypy/classic_heuristics/mole_jameson_insertion.py | 2 +-
 verypy/classic_heuristics/paessens_savings.py       | 2 +-
 verypy/classic_heuristics/suppression_savings.py    | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gaskell_savings.py b/verypy/classic_heuristics/gaskell_savings.py
index 508bda8..e7e35e1 100644
--- a/verypy/classic_heuristics/gaskell_savings.py
+++ b/verypy/classic_heuristics/gaskell_savings.py
@@ -99,7 +99,7 @@ def gaskell_savings_init(D,d,C,L, minimize_K=False, savings_method="both"):
             # lambda or pi was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/mole_jameson_insertion.py b/verypy/classic_heuristics/mole_jameson_insertion.py
index cacc096..814c083 100644
--- a/verypy/classic_heuristics/mole_jameson_insertion.py
+++ b/verypy/classic_heuristics/mole_jameson_insertion.py
@@ -270,7 +270,7 @@ def mole_jameson_insertion_init(D, d, C, L=None, minimize_K=False,
             # some of the strain function insertion runs was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
            
         if sol:
             sol_f = objf(sol, D)
diff --git a/verypy/classic_heuristics/paessens_savings.py b/verypy/classic_heuristics/paessens_savings.py
index 46b60ef..b26aa0d 100644
--- a/verypy/classic_heuristics/paessens_savings.py
+++ b/verypy/classic_heuristics/paessens_savings.py
@@ -117,7 +117,7 @@ def paessens_savings_init(D,d,C,L, minimize_K=False,
             # some parameter combination was interrupted
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index f69ff7a..760984f 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -137,7 +137,7 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         except KeyboardInterrupt as e: # or SIGINT
             if len(e.args)>0 and type(e.args[0]) is list:
                 sol = e.args[0]
-                interrupted = True
+            interrupted = True
         if sol:
             sol_f = objf(sol, D)
             sol_K = sol.count(0)-1
-- 
2.43.0


From c0df2fcf0a16d18a3131900c20e7983a644add0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:30 +0000
Subject: [PATCH 02/41] fix: hand over only complete and feasible solutions
 when a construction heuristic is interrupted

---
 verypy/classic_heuristics/cmt_2phase.py       | 29 ++++++++++-------
 verypy/classic_heuristics/nearest_neighbor.py | 15 ++++-----
 verypy/classic_heuristics/parallel_savings.py |  5 +--
 .../classic_heuristics/sequential_savings.py  | 11 ++++---
 verypy/util.py                                | 32 +++++++++++++++++++
 5 files changed, 64 insertions(+), 28 deletions(-)

diff --git a/verypy/classic_heuristics/cmt_2phase.py b/verypy/classic_heuristics/cmt_2phase.py
index acdca43..a811b76 100644
--- a/verypy/classic_heuristics/cmt_2phase.py
+++ b/verypy/classic_heuristics/cmt_2phase.py
@@ -37,7 +37,8 @@ except ImportError:
           "Relying on internal TSP solver and the results may differ from those that were published.", file=stderr)
     from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt as solve_tsp
 
-from verypy.util import is_better_sol, routes2sol, without_empty_routes, objf
+from verypy.util import is_better_sol, without_empty_routes, objf
+from verypy.util import sol2routes, interrupted_routes2sol
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
 
@@ -57,16 +58,16 @@ def _first_seed(D, d, unrouted):
     return unrouted[0]
 
 def _farthest_seed(D, d, unrouted):
-    largest_D_0l_unrouted_idx = int(np.argmax( D[[0], unrouted] ))
+    largest_D_0l_unrouted_idx = int(np.argmax( D[[0], list(unrouted)] ))
     return unrouted[largest_D_0l_unrouted_idx]
 
 def _closest_seed(D, d, unrouted):
-    largest_D_0l_unrouted_idx = int(np.argmin( D[[0], unrouted] ))
+    largest_D_0l_unrouted_idx = int(np.argmin( D[[0], list(unrouted)] ))
     return unrouted[largest_D_0l_unrouted_idx]
 
 def _biggest_seed(D, d, unrouted):
     npd = np.array(d)
-    largest_d_unrouted_idx = int(np.argmax(npd[unrouted]))
+    largest_d_unrouted_idx = int(np.argmax(npd[list(unrouted)]))
     return unrouted[largest_d_unrouted_idx]
 
 def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
@@ -89,6 +90,7 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
         log(DEBUG, "## Sequential route bulding phase ##")
     
     route_idx = 0
+    route = []
     
     try:
         while unrouted:
@@ -110,9 +112,10 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             
             ## Step 2: Compute savings
             
-            s_vals = (D[[0],unrouted]+lambda_multiplier*
-                      D[unrouted,[route_seed_k]]).tolist()
-            savings = list(zip(s_vals, unrouted))
+            unrouted_list = list(unrouted)
+            s_vals = (D[[0],unrouted_list]+lambda_multiplier*
+                      D[unrouted_list,[route_seed_k]]).tolist()
+            savings = list(zip(s_vals, unrouted_list))
             savings.sort()
             for best_saving, i in savings:
                 ## Step 3: insert until feasibility is broken
@@ -179,7 +182,9 @@ def _phase_one(lambda_multiplier, D,d,C,L, seed_f, rr):
             total_cost += route_cost
             sol+=route
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = sol+routes2sol([n] for n in unrouted if n not in sol)
+        # the interrupt may have come in the middle of an insertion
+        interrupted_sol = interrupted_routes2sol(sol2routes(sol+route),
+                                                 D, d, C, L)
         raise KeyboardInterrupt(interrupted_sol)
         
     sol+=[0]
@@ -274,7 +279,7 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
             ## Step 2.1: Choose a (any) route to add customers to.        
         
             # some nodes may have been routed, update these
-            eps_unrouted = eps[:,unrouted_nodes]
+            eps_unrouted = eps[:,list(unrouted_nodes)]
             
             ## Step 1.2: Associate each node to a route
             # note: the assignments cannot be calculated beforehand, as we do 
@@ -396,9 +401,9 @@ def _phase_two(mu_multiplier,route_seeds, D,d,C,L, rr,
                                                   route_cost,      #updated cost 
                                                   route_l_updated) #cost state
     except KeyboardInterrupt: #or SIGINT
-        rs_sol, _ = _routestates2solution(routes, D)
-        interrupted_sol = rs_sol[:-1]+routes2sol([n] for n in unrouted_nodes
-                                                if n not in rs_sol)
+        # the interrupt may have come in the middle of an insertion
+        interrupted_sol = interrupted_routes2sol([rs.route for rs in routes],
+                                                 D, d, C, L)
         raise KeyboardInterrupt(interrupted_sol)
     
     ## Step 4: Redo step 1 or construct the solution and exit 
diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 5392fbf..f17b0fe 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -20,7 +20,8 @@ from __future__ import division
 from logging import log, DEBUG
 from operator import itemgetter
 from collections import deque
-from verypy.util import objf, without_empty_routes, is_better_sol, routes2sol
+from verypy.util import objf, without_empty_routes, is_better_sol
+from verypy.util import sol2routes, interrupted_routes2sol
 
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
@@ -314,14 +315,10 @@ def nearest_neighbor_init(D, d, C, L=None,
                             "#%d as %s (%.2f)"%(k,str(current_route),croute_f))                    
         
         if interrupted:
-            if sol:
-                unroutedr = [[n] for n in range(N)
-                             if (n not in sol)]
-                if sol and len(sol)>1:
-                    interrupted_sol = sol[:-1]+routes2sol( unroutedr )
-                else:
-                    interrupted_sol = routes2sol( unroutedr )
-                raise KeyboardInterrupt(interrupted_sol)
+            # the interrupt may have come in the middle of adding a node
+            interrupted_sol = interrupted_routes2sol(sol2routes(sol),
+                                                     D, d, C, L)
+            raise KeyboardInterrupt(interrupted_sol)
                 
         elif len(sol)==1:
             sol = None
diff --git a/verypy/classic_heuristics/parallel_savings.py b/verypy/classic_heuristics/parallel_savings.py
index 6b14a5f..1619e5e 100644
--- a/verypy/classic_heuristics/parallel_savings.py
+++ b/verypy/classic_heuristics/parallel_savings.py
@@ -19,7 +19,7 @@ from __future__ import division
 from builtins import range
 
 from logging import log, DEBUG
-from verypy.util import routes2sol, objf
+from verypy.util import routes2sol, interrupted_routes2sol, objf
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
 
@@ -177,7 +177,8 @@ def parallel_savings_init(D, d, C, L=None, minimize_K=False,
                 log(DEBUG-1, "Merged, resulting solution is %s (%.2f)"%
                              (str(dbg_sol), objf(dbg_sol,D)))
     except KeyboardInterrupt: # or SIGINT
-        interrupted_sol = routes2sol(routes)
+        # the interrupt may have come in the middle of a merge
+        interrupted_sol = interrupted_routes2sol(routes, D, d, C, L)
         raise KeyboardInterrupt(interrupted_sol)
         
     return routes2sol(routes)
diff --git a/verypy/classic_heuristics/sequential_savings.py b/verypy/classic_heuristics/sequential_savings.py
index 85fb182..4d37ee0 100644
--- a/verypy/classic_heuristics/sequential_savings.py
+++ b/verypy/classic_heuristics/sequential_savings.py
@@ -17,7 +17,7 @@ from __future__ import print_function
 from __future__ import division
 
 from logging import log, DEBUG
-from verypy.util import objf, routes2sol
+from verypy.util import objf, sol2routes, interrupted_routes2sol
 
 from collections import deque
 
@@ -199,11 +199,12 @@ def sequential_savings_init(D, d, C, L=None, minimize_K=False,
             emerging_route_nodes = None
             
     except KeyboardInterrupt:
-        interrupted_solution = solution
+        # the interrupt may have come in the middle of a merge
+        interrupted_routes = sol2routes(solution)
         if emerging_route_nodes:
-            emerging_route_nodes.append(0)
-            interrupted_solution+=emerging_route_nodes
-        interrupted_solution+=routes2sol([n] for n in unrouted)[1:]
+            interrupted_routes.append(list(emerging_route_nodes))
+        interrupted_solution = interrupted_routes2sol(interrupted_routes,
+                                                      D, d, C, L)
         raise KeyboardInterrupt(interrupted_solution)
                  
     return solution
diff --git a/verypy/util.py b/verypy/util.py
index b9a8fc9..a9b4382 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -16,6 +16,8 @@ from builtins import range
 from itertools import groupby    
 from operator import itemgetter
 
+from verypy.config import COST_EPSILON, CAPACITY_EPSILON
+
 __author__ = "Jussi Rasku"
 __copyright__ = "Copyright 2022, Jussi Rasku"
 __credits__ = ["Jussi Rasku"]
@@ -122,6 +124,36 @@ def routes2sol(routes):
                 sol += [0]
     return sol
 
+def interrupted_routes2sol(routes, D, d=None, C=None, L=None):
+    """Builds the solution that an interrupted heuristic hands over to its
+    caller. An interrupt can arrive at any moment, even in the middle of an
+    update of the route bookkeeping, so the given routes may be half updated,
+    overlapping, or incomplete. A route is used only if all of its customers are
+    still unserved and if it respects the capacity C and route cost L
+    constraints. The customers of the rest are served with individual routes,
+    which means that the solution is always complete.
+    
+    Returns None if there are no customers."""
+    
+    unserved = set(range(1, len(D)))
+    served_with = []
+    for route in routes:
+        if not route:
+            continue
+        customers = [n for n in route if n!=0]
+        if (not customers or
+            not unserved.issuperset(customers) or
+            len(set(customers))<len(customers)):
+            continue
+        if C and totald(customers, d)-CAPACITY_EPSILON > C:
+            continue
+        if L and objf([0]+customers+[0], D)-COST_EPSILON > L:
+            continue
+        unserved.difference_update(customers)
+        served_with.append(customers)
+    served_with.extend( [n] for n in sorted(unserved) )
+    return routes2sol(served_with)
+
 def natural_sort(l): 
     """Returns elements of l sorted in a natural way (as a human would).
 
-- 
2.43.0


From 6c9e90c203ea1004ff44047829d6dfae23fddcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:45 +0000
Subject: [PATCH 03/41] fix: insertion heuristics: feasible interrupted
 solutions, and ties that do not depend on memory addresses

---
 verypy/classic_heuristics/cheapest_insertion.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index 0b73663..f5504f7 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -18,9 +18,10 @@ from builtins import range
 
 from collections import namedtuple
 from heapq import heappush, heappop
+from itertools import count
 from logging import log, DEBUG, WARNING
 
-from verypy.util import objf, routes2sol
+from verypy.util import objf, interrupted_routes2sol
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
 
@@ -50,6 +51,7 @@ class _EmergingRouteData:
     constructed in the same place. """
     def __init__(self, seed_customers, D, d):
         self.potential_insertions = []
+        self.insertion_counter = count()
         if seed_customers:
             lroute = [0]+seed_customers+[0]
             self.route = dllist(lroute)
@@ -123,7 +125,9 @@ def _new_potential_insertions(unrouted, D, d, C, L, rd, after, before,
         #sorting_key = (-strain, +D[after.value, customer]
         #                        +D[customer, before.value], -customer)
         
-        heappush( rd.potential_insertions, (sorting_key, id(insertion), insertion) )
+        # the running number resolves the ties (and does it the same way each time)
+        heappush( rd.potential_insertions,
+                  (sorting_key, next(rd.insertion_counter), insertion) )
       
 
 def _seems_valid_insertion(insertion, route_current_d, unrouted, D, d, C):  
@@ -402,10 +406,10 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     
                 route_datas[route_index] = rd            
     except KeyboardInterrupt:  #or SIGINT
-        interrupted_sol = [0]+_EmergingRouteData.export_solution(route_datas)\
-                          +_EmergingRouteData.export_solution(complete_routes)
-        interrupted_sol.extend( routes2sol([n] for n in unrouted
-                                           if n not in interrupted_sol)[1:] )
+        # the interrupt may have come in the middle of an insertion
+        interrupted_sol = interrupted_routes2sol(
+            [list(rd.route) for rd in route_datas+complete_routes],
+            D, d, C, L)
         raise KeyboardInterrupt(interrupted_sol)
                               
     return [0]+_EmergingRouteData.export_solution(route_datas)\
-- 
2.43.0


From c63590980f73b7d4e70f146771e5c43d486b8346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 04/41] fix: an interrupted route-first-cluster-second must not
 split with an incomplete matrix

---
 verypy/classic_heuristics/rfcs.py | 37 +++++++++++++++++++------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/verypy/classic_heuristics/rfcs.py b/verypy/classic_heuristics/rfcs.py
index 429679b..4a2b60e 100644
--- a/verypy/classic_heuristics/rfcs.py
+++ b/verypy/classic_heuristics/rfcs.py
@@ -33,6 +33,7 @@ except ImportError:
 # Always use built-in TSP solver to guarantee 2 and 3-optimality of single routes.
 from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_2opt, solve_tsp_3opt
 
+from verypy.util import objf, totald, interrupted_routes2sol
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
 
@@ -45,6 +46,22 @@ __maintainer__ = "Jussi Rasku"
 __email__ = "jussi.rasku@gmail.com"
 __status__ = "Development"
 
+def _split_greedily(D, d, C, L, giant_tour):
+    """ Cuts the giant tour each time a constraint would be violated. Used only
+    if interrupted, when there is no time to partition the tour optimally.
+    """
+    
+    routes = []
+    route = []
+    for n in giant_tour:
+        if (C and totald(route+[n], d)-C_EPS>C) or \
+           (L and objf([0]+route+[n,0], D)-S_EPS>L):
+            routes.append(route)
+            route = []
+        route = route+[n]
+    routes.append(route)
+    return interrupted_routes2sol(routes, D, d, C, L)
+
 def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
                                           route_cost_constant,
                                           partition_tsp_opt_algo,
@@ -61,7 +78,6 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
     # these are the dist and next tables of Floyd-Warshall algorithm
     sequence_D = np.full((N,N), np.inf)
     next_split = np.zeros((N,N), dtype='int')
-    interrupted = False
     
     try:
         ## Build the feasible sequences of nodes on the giant tour
@@ -110,7 +126,8 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx==gtl:
                 break
     except KeyboardInterrupt:
-        interrupted = True
+        # the shortcut matrix is incomplete and cannot be used for splitting
+        raise KeyboardInterrupt(_split_greedily(D, d, C, L, giant_tour[:gtl]))
         
     # Solve using Floyd's algorithm
     #  note that we cannot use floyd_warshall from scipy.sparse.csgraph, as 
@@ -145,14 +162,10 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             if u_idx+1 == gtl:
                 u_idx = -1
             route[-1] = giant_tour[u_idx+1]
-            if not interrupted:
-                route, _ = partition_tsp_opt_algo(D, route)
-            else:
-                route.append(0)
+            route, _ = partition_tsp_opt_algo(D, route)
             u_idx+=1
         
-        if not interrupted:
-            route, route_cost = route_tsp_opt_algo(D, route )
+        route, route_cost = route_tsp_opt_algo(D, route )
         
         # record the route
         sol.extend(route[1:])
@@ -166,12 +179,8 @@ def _partition_to_routes_with_cost_matrix(D, d, C, L, giant_tour,
             break
     
     if __debug__: 
-        if not interrupted:
-            log(DEBUG, "Partitioning result was %s, K = %d, f = %.2f"%
-                       (str(sol), sol_K, sol_f))
-    
-    if interrupted:
-        raise KeyboardInterrupt(sol)
+        log(DEBUG, "Partitioning result was %s, K = %d, f = %.2f"%
+                   (str(sol), sol_K, sol_f))
     
     return sol
 
-- 
2.43.0


From 9917a7a68e6ac2f54f5218e7816158e83de65514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 05/41] fix: wren_holliday interrupted in the middle of a move
 lost or duplicated customers

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 90134a7..4ac4667 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -32,6 +32,7 @@ from verypy.local_search.inter_route_operators import do_1point_move, do_chain_m
                                                do_insert_move,do_redistribute_move
 
 from verypy.util import objf, without_empty_routes, is_better_sol
+from verypy.util import interrupted_routes2sol
 
 from verypy.config import COST_EPSILON as S_EPS
 from verypy.config import CAPACITY_EPSILON as C_EPS
@@ -735,6 +736,9 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         sol = [0]+[n for r in routes for n in r.route[1:]]
         # LS may cause empty routes
         sol = without_empty_routes(sol)
+        if interrupted:
+            # the interrupt may have come in the middle of a move
+            sol = interrupted_routes2sol([r.route for r in routes], D, d, C, L)
         sol_K = sol.count(0)-1
         sol_f = objf(sol, D)
         
-- 
2.43.0


From 54bb130a58a97d95f169a0204bc5e5d51898abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 06/41] fix: gillet_miller must not modify the distance matrix
 of the caller

---
 .../classic_heuristics/gillet_miller_sweep.py   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index e9a9925..4046e09 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -42,18 +42,17 @@ __status__ = "Development"
 
 def _shortest_path_through_nodes(D, from_node, to_node, through_nodes):
     # make sure to_node is the last by setting the distance between the end
-    # points to 0.0. Also, instead of copying (potentially large) D, just.
-    #  switch out the values in the D for the TSP algorithm.
+    # points to 0.0. The D belongs to the caller (and there may be others using
+    #  it), so make the change only to a copy of the distances that are needed.
     if not through_nodes:
         return [from_node,to_node], D[from_node, to_node]
 
-    old_path_end_distance = D[from_node, to_node]
-    D[from_node, to_node] = 0.0
-    D[to_node, from_node] = 0.0
-    route,cost = solve_tsp(D, [from_node]+list(through_nodes)+[to_node])
-    # restore original weights
-    D[from_node, to_node] = old_path_end_distance
-    D[to_node, from_node] = old_path_end_distance
+    nodes = [from_node]+list(through_nodes)+[to_node]
+    path_D = D[np.ix_(nodes, nodes)]
+    path_D[0, -1] = 0.0
+    path_D[-1, 0] = 0.0
+    route,cost = solve_tsp(path_D, list(range(len(nodes))))
+    route = [nodes[i] for i in route]
     
     # contingency plan for the special case where there are nodes that overlap 
     #  the depot. Check for it and fix it with a simple swap if needed.
-- 
2.43.0


From 8a3ce4e9f43294cf67da56478163d62861e1c6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 07/41] fix: lr3opt infinite penalty safeguard for the route
 cost constraint

---
 verypy/classic_heuristics/lr3opt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/lr3opt.py b/verypy/classic_heuristics/lr3opt.py
index 597eb2c..7515da7 100644
--- a/verypy/classic_heuristics/lr3opt.py
+++ b/verypy/classic_heuristics/lr3opt.py
@@ -344,7 +344,7 @@ def lr3opt_init(D, d, C, L,
                         lambda_at_inf = lambdas[0]==float('inf')
                     if lambdas[1] is not None:
                         lambdas[1] = lambdas[1]*2
-                        lambda_at_inf = lambda_at_inf or lambdas[0]==float('inf')
+                        lambda_at_inf = lambda_at_inf or lambdas[1]==float('inf')
                     if __debug__:
                         log(DEBUG-1, "No improving moves left, increasing lambda to l1=%.2f, l2=%.2f"%
                             ((0 if lambdas[0] is None else lambdas[0]),
-- 
2.43.0


From 8385d1314082347d86e28c972083c4f0a9771202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:57 +0000
Subject: [PATCH 08/41] fix: Gurobi based solvers: keep SIGINT handler, work in
 threads, mbsa corner cases and interrupts, gap corrective action, petal
 import

---
 verypy/classic_heuristics/gapvrp.py      | 18 +++++++---------
 verypy/classic_heuristics/matchingvrp.py | 27 +++++++++++++-----------
 verypy/classic_heuristics/petalvrp.py    | 17 +++++++--------
 verypy/tsp_solvers/tsp_solver_gurobi.py  |  9 ++++----
 verypy/util.py                           | 17 +++++++++++++++
 5 files changed, 52 insertions(+), 36 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index a1f7f9a..3267dbc 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -15,7 +15,6 @@ solver, and numpy and scipy for reading and preparing the problem instance."""
 from __future__ import print_function
 from __future__ import division
 
-from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
 from math import pi, ceil
 from logging import log, DEBUG, WARNING
@@ -39,7 +38,7 @@ except ImportError:
 
 from verypy.classic_heuristics.sweep import get_sweep_from_cartesian_coordinates, bisect_angle
 from verypy.cvrp_io import calculate_D
-from verypy.util import is_better_sol, totald
+from verypy.util import is_better_sol, totald, preserve_sigint_handler
 from verypy.config import MAX_MIP_SOLVER_RUNTIME, MIP_SOLVER_THREADS
 from verypy.config import CAPACITY_EPSILON as C_EPS
 from verypy.config import COST_EPSILON as S_EPS
@@ -171,10 +170,9 @@ def _solve_gap(N, D_s, d, C, K, L=None, L_ctr_multipiler=1.0):
     m.setParam('MIPFocus', 3)
     m.setParam('TimeLimit', MAX_MIP_SOLVER_RUNTIME)
 
-    m.optimize()
-
-    # restore SIGINT callback handler which is changed by gurobipy
-    signal(SIGINT, default_int_handler)
+    # reinstate the SIGINT handler which is changed by gurobipy
+    with preserve_sigint_handler():
+        m.optimize()
     
     if __debug__:
         log(DEBUG-1,"Gurobi runtime = %.2f"%m.Runtime)
@@ -189,10 +187,9 @@ def _solve_gap(N, D_s, d, C, K, L=None, L_ctr_multipiler=1.0):
         # TODO: not sure if feasRelax can change Status, test it someday
         if m.Status == GRB.INTERRUPTED:
             raise KeyboardInterrupt() # pass it on
-        m.optimize()
-
-        # restore SIGINT callback handler which is changed by gurobipy
-        signal(SIGINT, default_int_handler)
+        # reinstate the SIGINT handler which is changed by gurobipy
+        with preserve_sigint_handler():
+            m.optimize()
 
         status = m.Status       
         if __debug__:
@@ -783,6 +780,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
                 solved = False
                 sol_K = 0
                 take_next_seed = False
+                corrective_action = "no corrective action"
                 try:
                     # Distribute the nodes to vehicles using the approxmate 
                     # service costs in D_s and by solving it as GAP
diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 1116b11..469e4c0 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -20,7 +20,6 @@ from builtins import range
 from sys import stderr
 
 from logging import log, DEBUG
-from signal import signal, SIGINT, default_int_handler
 
 # this uses Gurobi to solve the maximum matching problem
 from gurobipy import Model, GRB, GurobiError                         
@@ -36,7 +35,7 @@ except ImportError:
           "Relying on internal TSP solver and the results may differ from those that were published.", file=stderr)
     from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt as default_solve_tsp
 
-from verypy.util import objf
+from verypy.util import objf, interrupted_routes2sol, preserve_sigint_handler
 
 from verypy.config import MAX_MIP_SOLVER_RUNTIME, MIP_SOLVER_THREADS
 from verypy.config import COST_EPSILON as S_EPS
@@ -80,10 +79,9 @@ def _mmp_solve(w1_ij, x_ij_keys, n, w2_ij = None):
     m.setParam('TimeLimit', MAX_MIP_SOLVER_RUNTIME)
     m.setParam('Threads', MIP_SOLVER_THREADS)
     #m.write("out.lp")
-    m.optimize()
-
-    # restore SIGINT callback handler which is changed by gurobipy
-    signal(SIGINT, default_int_handler)
+    # reinstate the SIGINT handler which is changed by gurobipy
+    with preserve_sigint_handler():
+        m.optimize()
 
     if __debug__:
         log(DEBUG-1, "Gurobi runtime = %.2f"%m.Runtime)
@@ -198,6 +196,8 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
             # get nodes, TSP chain, demand, and lenght for both routes
             nodes_i = route_sets[route_i]
             nodes_j = route_sets[route_j]
+            if nodes_i not in tsp_cache or nodes_j not in tsp_cache:
+                continue # the routing was not yet known when interrupted
             chain_i = tsp_cache[nodes_i][0][1:-1]
             l_i = tsp_cache[nodes_i][1]
             d_i = _get_demand(nodes_i, demand_cache, d)        
@@ -228,12 +228,13 @@ def _geedy_merge(D, d, C, L, W, savings, route_sets, tsp_cache, demand_cache):
     except KeyboardInterrupt: #or SIGINT
         pass
     
-    greedy_solution = []
+    # the interrupt may have come in the middle of a merge
+    greedy_routes = []
     for nodes in route_sets:
         if isinstance(nodes, int): continue
-        greedy_solution +=tsp_cache[nodes][0][:-1]
-    greedy_solution.append(0)
-    return greedy_solution 
+        if nodes in tsp_cache:
+            greedy_routes.append( tsp_cache[nodes][0] )
+    return interrupted_routes2sol(greedy_routes, D, d, C, L)
         
 def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
               primary_criteria_callback=_calculate_savings,
@@ -290,6 +291,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
         while True:
             ## Step 1: Evaluate the weights and solve the weighted matching prolbem
             
+            if not savings:
+                break # only one route remains
             w_ij,x_ij_keys = zip(*savings)
             valid_matchings = any( w for w in w_ij if w!=W )
             if valid_matchings==0:
@@ -308,8 +311,8 @@ def mbsa_init(D, d, C, L, minimize_K=False, W=0.0, solve_tsp=default_solve_tsp,
                 break
             
             if ignore_negative_savings and best_savings<0:
-                continue # do not allow merges that would make the solution worse
-                         # (even if it would mean fewer routes)
+                break # do not allow merges that would make the solution worse
+                      # (even if it would mean fewer routes)
     
             if __debug__:
                 log(DEBUG,"Best matching joins routes %s (idx:%d) and %s (idx:%d)."%(
diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4ddd53d..c8e5e4d 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -17,10 +17,10 @@ from __future__ import print_function
 from __future__ import division
 from builtins import range
 
-from signal import signal, SIGINT, default_int_handler
 from collections import namedtuple
 from math import ceil    
 from logging import log, DEBUG
+from sys import stderr
 
 from gurobipy import Model, GRB, GurobiError, quicksum
 
@@ -40,6 +40,7 @@ except ImportError:
     from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt as solve_tsp
 
 from verypy.util import objf, totald, routes2sol, without_empty_routes, is_better_sol
+from verypy.util import preserve_sigint_handler
 from verypy.routedata import RouteData
 
 from verypy.local_search.inter_route_operators import do_redistribute_move
@@ -411,10 +412,9 @@ def _relax_customer_constraints_with_feasRelax(m, customer_cover_constraints, ac
     # TODO: not sure if feasRelax can change Status, test it someday
     if m.Status == GRB.INTERRUPTED: 
         raise KeyboardInterrupt()
-    m.optimize()
-
-    # restore SIGINT callback handler which is changed by gurobipy
-    signal(SIGINT, default_int_handler)
+    # reinstate the SIGINT handler which is changed by gurobipy
+    with preserve_sigint_handler():
+        m.optimize()
 
     status = m.Status
     if __debug__:
@@ -491,10 +491,9 @@ def _solve_set_covering(N, active_ptls, relaxed_ptls, forbidden_combos,
     m.setParam('TimeLimit', MAX_MIP_SOLVER_RUNTIME)
     m.setParam('Threads', MIP_SOLVER_THREADS)
     #m.write("petalout.lp")
-    m.optimize()
-
-    # restore SIGINT callback handler which is changed by gurobipy
-    signal(SIGINT, default_int_handler)
+    # reinstate the SIGINT handler which is changed by gurobipy
+    with preserve_sigint_handler():
+        m.optimize()
 
         
     if __debug__:
diff --git a/verypy/tsp_solvers/tsp_solver_gurobi.py b/verypy/tsp_solvers/tsp_solver_gurobi.py
index d4c04d2..3b8a88c 100644
--- a/verypy/tsp_solvers/tsp_solver_gurobi.py
+++ b/verypy/tsp_solvers/tsp_solver_gurobi.py
@@ -8,9 +8,9 @@ from builtins import range
 # MODIFIED FROM http://examples.gurobi.com/traveling-salesman-problem/
 
 from math import sqrt
-from signal import signal, SIGINT, default_int_handler
 
 from gurobipy import Model, GRB, quicksum, GurobiError
+from verypy.util import preserve_sigint_handler
 from verypy.config import MAX_MIP_SOLVER_RUNTIME, MIP_SOLVER_THREADS
 
 # closures that include n
@@ -102,10 +102,9 @@ def solve_tsp_gurobi(D, selected_idxs):
     m.setParam('TimeLimit', MAX_MIP_SOLVER_RUNTIME)
     m.setParam('Threads', MIP_SOLVER_THREADS)
     
-    m.optimize(_subtourelim)
-
-    # restore SIGINT callback handler which is changed by gurobipy
-    signal(SIGINT, default_int_handler)
+    # reinstate the SIGINT handler which is changed by gurobipy
+    with preserve_sigint_handler():
+        m.optimize(_subtourelim)
 
     status = m.Status
     if status == GRB.TIME_LIMIT:
diff --git a/verypy/util.py b/verypy/util.py
index a9b4382..c9d727f 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -13,8 +13,10 @@ import sys
 import re
 from builtins import range
 
+from contextlib import contextmanager
 from itertools import groupby    
 from operator import itemgetter
+from signal import signal, getsignal, SIGINT
 
 from verypy.config import COST_EPSILON, CAPACITY_EPSILON
 
@@ -154,6 +156,21 @@ def interrupted_routes2sol(routes, D, d=None, C=None, L=None):
     served_with.extend( [n] for n in sorted(unserved) )
     return routes2sol(served_with)
 
+@contextmanager
+def preserve_sigint_handler():
+    """gurobipy takes over the handling of the SIGINT for the duration of the
+    optimization. This context manager makes sure that the handler of the
+    caller is reinstated afterwards."""
+    handler = getsignal(SIGINT)
+    try:
+        yield
+    finally:
+        try:
+            if handler is not None:
+                signal(SIGINT, handler)
+        except ValueError:
+            pass # can be set only from the main thread
+
 def natural_sort(l): 
     """Returns elements of l sorted in a natural way (as a human would).
 
-- 
2.43.0


From 08940063f67144b5c8081e7f98208b8a6bd5d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:20 +0000
Subject: [PATCH 09/41] fix: an interrupted petal heuristic hands over a
 complete and feasible solution and does not swallow the interrupt

---
 verypy/classic_heuristics/petalvrp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index c8e5e4d..7d2f7e3 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -39,7 +39,8 @@ except ImportError:
           "Relying on internal TSP solver and the results may differ from those that were published.", file=stderr)
     from verypy.tsp_solvers.tsp_solver_ropt import solve_tsp_ropt as solve_tsp
 
-from verypy.util import objf, totald, routes2sol, without_empty_routes, is_better_sol
+from verypy.util import objf, totald, routes2sol, sol2routes, without_empty_routes, is_better_sol
+from verypy.util import interrupted_routes2sol
 from verypy.util import preserve_sigint_handler
 from verypy.routedata import RouteData
 
@@ -869,7 +870,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
-                    return best_sol
+                    break # the main loop, there is nothing left to try
                 continue
             
             petal_sol = routes2sol(chosen_ptl_routes)
@@ -985,6 +986,9 @@ def petal_init(points, D, d, C, L, K=None,
             break #the main loop
                 
     if interrupted:
+        if best_sol and not best_sol_feasible:
+            # the relaxed SCP solution may miss customers or visit them twice
+            best_sol = interrupted_routes2sol(sol2routes(best_sol), D, d, C, L)
         raise KeyboardInterrupt(best_sol)
         
     return best_sol 
-- 
2.43.0


From c4d4cd1e3e49af0b0099447931b5b351b9e9f0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:19 +0000
Subject: [PATCH 10/41] fix: 2-opt* must report the cost and the demand of both
 of the new routes

---
 verypy/local_search/inter_route_operators.py | 26 +++++++++++---------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 7410fe1..8b23ee5 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -129,11 +129,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                 
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j,None,-1),
-                                  D[a,c]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,c]+
+                                    route2_data.fwd_l[j], r1_new_demand),
                                  ((None,i,-1), (j+1,None,1),
-                                  D[b,d]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,d]+
+                                    route2_data.rwd_l[j+1], r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -164,11 +166,13 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                     constraint_violated = True
                     
                 if not constraint_violated:
-                    # store segments, deltas, and demands
+                    # store segments, costs, and demands
                     best_move = (((None,i+1,1), (j+1,None,1),
-                                  D[a,d]-D[a,b], r1_new_demand),
+                                  route1_data.fwd_l[i]+D[a,d]+
+                                    route2_data.rwd_l[j+1], r1_new_demand),
                                  ((None,i,-1), (j,None,-1),
-                                  D[b,c]-D[c,d], r2_new_demand))
+                                  route1_data.rwd_l[i+1]+D[b,c]+
+                                    route2_data.fwd_l[j], r2_new_demand))
                     best_delta = delta
                     
                     if strategy==LSOPT.FIRST_ACCEPT:
@@ -180,22 +184,22 @@ def do_2optstar_move(route1_data, route2_data, D, d=None,
                 
     if best_move:
         # unpack the move
-        ((r1_sgm1, r2_sgm1, r1_delta, r1_new_demand),
-         (r1_sgm2, r2_sgm2, r2_delta, r2_new_demand)) = best_move
+        ((r1_sgm1, r2_sgm1, r1_new_cost, r1_new_demand),
+         (r1_sgm2, r2_sgm2, r2_new_cost, r2_new_demand)) = best_move
          
         return (
             # route 1
             RouteData(
                 route1_data.route[r1_sgm1[0]:r1_sgm1[1]:r1_sgm1[2]]+\
                 route2_data.route[r2_sgm1[0]:r2_sgm1[1]:r2_sgm1[2]],
-                route1_data.cost+r1_delta,
+                r1_new_cost,
                 r1_new_demand),
             # route 2
             RouteData(
                 route1_data.route[r1_sgm2[0]:r1_sgm2[1]:r1_sgm2[2]]+\
                 route2_data.route[r2_sgm2[0]:r2_sgm2[1]:r2_sgm2[2]],
-                route1_data.cost+r1_delta,
-                r1_new_demand),
+                r2_new_cost,
+                r2_new_demand),
             # delta
             best_delta)
  
-- 
2.43.0


From 857b92fd0bd064bb3b306e52f048136fc0407dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:34 +0000
Subject: [PATCH 11/41] fix: LKH and ACOTSP wrappers verify the tour, and do
 not leave files or processes behind

---
 verypy/tsp_solvers/tsp_solver_acotsp.py | 107 +++++++++--------
 verypy/tsp_solvers/tsp_solver_lkh.py    | 146 ++++++++++++------------
 2 files changed, 126 insertions(+), 127 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_acotsp.py b/verypy/tsp_solvers/tsp_solver_acotsp.py
index f28b6f1..ba634e7 100644
--- a/verypy/tsp_solvers/tsp_solver_acotsp.py
+++ b/verypy/tsp_solvers/tsp_solver_acotsp.py
@@ -5,7 +5,6 @@ from sys import stderr, version_info
 
 from subprocess import Popen, PIPE
 from tempfile import NamedTemporaryFile
-import re
 import os
 
 import numpy as np
@@ -68,67 +67,67 @@ def solve_tsp_acotsp(D, selected_idxs,
         sol_f = sum(D[sol[i-1]][sol[i]] for i in range(1,len(sol)))
         return sol, sol_f
 
-    # 1. Create a TSPLIB file
-    are_float_distances = issubclass(D.dtype.type, np.float)
+    are_float_distances = np.issubdtype(D.dtype.type, np.floating)
     if not are_float_distances:
         float_accuracy = None
-    with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
-        temp_problem_file_path = tmpfile.name
-    write_TSPLIB_file(temp_problem_file_path, D,
-                      selected_idxs=selected_idxs,
-                      float_to_int_precision=float_accuracy)
     
-    # 2. Call acotsp
-    if use_ants:
-        # with defaults
-        command = [ACOTSP_EXE_PATH, "--quiet", "-i", temp_problem_file_path]
-    else:
-        # use only local 2-opt+3-opt local search
-        nul_f = open(os.devnull, 'w')
-        command = [ACOTSP_EXE_PATH,
-                   "-r", "1", # one try is enough without ants (determnistic)
-                   "-m", "1", # one (deteministic) ant is still needed 
-                              #  to hold the nearest neighbour + 3opt solution 
-                   "-s", "1", # build only 1 route (tour)
-                   "-n",      # disable all ant systemes (NEW)
-                   "-j", "0", # turn of random local search order (NEW)
-                   "-l", "3", # do 3-opt
-                   "--quiet", # in 1.03 disables writing the files
-                   "-i", temp_problem_file_path]
-    p = Popen(command, stdout=PIPE, stdin=PIPE, stderr=nul_f)
-    # In Python3 bytes go in and come out. Special handling is required.
-    #  (not pretty, but allows smoketests to pass on Py3)
-    if version_info[0] >= 3:
-        stdout_data = p.communicate(input=b' ')[0].decode('ascii')
-    else:
-        stdout_data = p.communicate(input=' ')[0]
-
-  
-    #if __debug__:    
-        #print(stdout_data)
+    temp_problem_file_path = None
+    p = None
+    try:
+        # 1. Create a TSPLIB file
+        with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
+            temp_problem_file_path = tmpfile.name
+        write_TSPLIB_file(temp_problem_file_path, D,
+                          selected_idxs=selected_idxs,
+                          float_to_int_precision=float_accuracy)
         
-    # 3. Process output
-    sol = None
-    sol_f = None
+        # 2. Call acotsp
+        if use_ants:
+            # with defaults
+            command = [ACOTSP_EXE_PATH, "--quiet", "-i", temp_problem_file_path]
+        else:
+            # use only local 2-opt+3-opt local search
+            command = [ACOTSP_EXE_PATH,
+                       "-r", "1", # one try is enough without ants (determnistic)
+                       "-m", "1", # one (deteministic) ant is still needed 
+                                  #  to hold the nearest neighbour + 3opt solution 
+                       "-s", "1", # build only 1 route (tour)
+                       "-n",      # disable all ant systemes (NEW)
+                       "-j", "0", # turn of random local search order (NEW)
+                       "-l", "3", # do 3-opt
+                       "--quiet", # in 1.03 disables writing the files
+                       "-i", temp_problem_file_path]
+        with open(os.devnull, 'w') as nul_f:
+            p = Popen(command, stdout=PIPE, stdin=PIPE, stderr=nul_f)
+        # In Python3 bytes go in and come out. Special handling is required.
+        #  (not pretty, but allows smoketests to pass on Py3)
+        if version_info[0] >= 3:
+            stdout_data = p.communicate(input=b' ')[0].decode('ascii')
+        else:
+            stdout_data = p.communicate(input=' ')[0]
+    finally:
+        # whatever happens, do not leave a running solver or files behind
+        if p is not None and p.returncode is None:
+            p.kill()
+            p.communicate()
+        if temp_problem_file_path and os.path.exists(temp_problem_file_path):
+            os.remove(temp_problem_file_path)
+            
+    if p.returncode!=0:
+        raise RuntimeError("ACOTSP failed with the return code %s"%p.returncode)
     
-    best_re = re.compile("try [0-9]+, Best ([0-9]+(\.?[0-9]*)?),")
-    best_obj = None
+    # 3. Process output
+    tour_indices = []
     for l in stdout_data.split('\n'):
         if "best solution so far is" in l[:25]:
             tour_indices = [int(n) for n in l.replace("best solution so far is","").split()]
-            sol = list( selected_idxs[i] for i in tour_indices )
-            first_pos = sol.index(selected_idxs[0])
-            sol = sol[first_pos:]+sol[:first_pos]+[selected_idxs[0]]
-            sol_f = sum(D[sol[i-1]][sol[i]] for i in range(1,len(sol)))
-            #print("REMOVEME:", sol_f, best_obj)
-            
-        bo = best_re.search(l)
-        if bo:
-            best_obj = float(bo.group(1))
-            if are_float_distances:
-                best_obj = best_obj/float_accuracy;  
-  
-    os.remove(temp_problem_file_path) 
+    if sorted(tour_indices)!=list(range(len(selected_idxs))):
+        raise RuntimeError("ACOTSP did not produce a complete tour")
+    
+    sol = [selected_idxs[i] for i in tour_indices]
+    first_pos = sol.index(selected_idxs[0])
+    sol = sol[first_pos:]+sol[:first_pos]+[selected_idxs[0]]
+    sol_f = sum(D[sol[i-1]][sol[i]] for i in range(1,len(sol)))
     return sol, sol_f
     
 if __name__=="__main__":
diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index b83880b..0338d39 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -11,6 +11,7 @@ import sys
 import os
 
 from verypy.cvrp_io import write_TSPLIB_file    
+from verypy.util import objf
 
 from verypy.config import LKH_EXE_PATH, LKH_EXACT_DISTANCES_PRECISION_DECIMALS
 
@@ -45,89 +46,88 @@ def solve_tsp_lkh(D, selected_idxs,
         sol_f = 0
         for n in sol:
             if p is not None:
-                sol_f+=int(D[p,n])
+                sol_f+=D[p,n]
             p=n
         return sol, sol_f
 
-    # 1. Create a TSPLIB file
     are_float_distances = np.issubdtype(D.dtype.type, np.floating)
     if not are_float_distances:
         float_accuracy = None
-    with NamedTemporaryFile( delete=False, suffix='.tsp') as tmpfile:
-        temp_problem_file_path = tmpfile.name
-    write_TSPLIB_file(temp_problem_file_path, D,
-                      selected_idxs=selected_idxs, 
-                      float_to_int_precision=float_accuracy)
-    
-    # 2. Create a parameter file for lkh.exe
-    with NamedTemporaryFile( delete=False, suffix='.par') as tmpfile:
-        temp_parameter_file_path = tmpfile.name
-    with NamedTemporaryFile( delete=False, suffix='.tspsol') as tmpfile:
-        temp_output_file_path = tmpfile.name
-    with open(temp_parameter_file_path, 'w') as problem_file:
-        problem_file.write("PROBLEM_FILE = %s\n" % temp_problem_file_path)
-        problem_file.write("OUTPUT_TOUR_FILE = %s\n" % temp_output_file_path)
-        problem_file.write("TRACE_LEVEL = 0\n")
-        #problem_file.write("SEED = 42\n")
-        if num_runs:
-            problem_file.write("RUNS = %d\n"%num_runs)
-            
-    
-    # 3. Call lkh
-    command = [LKH_EXE_PATH, temp_parameter_file_path]
-    p = Popen(command, stdout=PIPE, stdin=PIPE)
-    
-    # In Python3 bytes go in and come out. Special handling is required.
-    #  (not pretty, but allows smoketests to pass on Py3)
-    if sys.version_info[0] >= 3:
-        stdout_data = p.communicate(input=b' ')[0].decode('ascii')
-    else:
-        stdout_data = p.communicate(input=' ')[0]
-
-    
-    if __debug__:    
-        log(DEBUG-3, stdout_data)
-    
-    #TODO: CHECK FOR LKH FAILURE?
-    #if "Press any key to continue" in stdout_data[-40:]:
-    #   lkh_successfull = True
+        
+    temp_file_paths = []
+    def _reserve_temp_file(suffix):
+        with NamedTemporaryFile( delete=False, suffix=suffix) as tmpfile:
+            temp_file_paths.append(tmpfile.name)
+        return temp_file_paths[-1]
     
-    # 4. Process output
-    sol = []
-    obj_f = 0
-    tail = []
-    with open(temp_output_file_path, 'r') as output_file:
-        skip = True
-        depot_found = False
-        for l in output_file.readlines():
-            l = l.strip()
-            if l == "EOF" or l == "-1":
-                skip = True
-            elif "Length = " in l:
-                obj_f = float(l.split()[-1])
-            elif not skip:
-                vrp_nid = selected_idxs[int(l)-1]
-                if vrp_nid==0:
-                    tail.append(0)
-                    depot_found = True
-                if depot_found:                    
-                    sol.append(vrp_nid)
-                else:
-                    tail.append(vrp_nid)
-            if l == "TOUR_SECTION":
-                skip = False
-        sol+=tail
-        if not depot_found:
-            sol+=[sol[0]]
+    p = None
+    try:
+        # 1. Create a TSPLIB file
+        temp_problem_file_path = _reserve_temp_file('.tsp')
+        write_TSPLIB_file(temp_problem_file_path, D,
+                          selected_idxs=selected_idxs, 
+                          float_to_int_precision=float_accuracy)
         
-    os.remove(temp_problem_file_path) 
-    os.remove(temp_parameter_file_path) 
-    os.remove(temp_output_file_path) 
+        # 2. Create a parameter file for lkh.exe
+        temp_parameter_file_path = _reserve_temp_file('.par')
+        temp_output_file_path = _reserve_temp_file('.tspsol')
+        with open(temp_parameter_file_path, 'w') as problem_file:
+            problem_file.write("PROBLEM_FILE = %s\n" % temp_problem_file_path)
+            problem_file.write("OUTPUT_TOUR_FILE = %s\n" % temp_output_file_path)
+            problem_file.write("TRACE_LEVEL = 0\n")
+            #problem_file.write("SEED = 42\n")
+            if num_runs:
+                problem_file.write("RUNS = %d\n"%num_runs)
+        
+        # 3. Call lkh
+        command = [LKH_EXE_PATH, temp_parameter_file_path]
+        p = Popen(command, stdout=PIPE, stdin=PIPE)
+        
+        # In Python3 bytes go in and come out. Special handling is required.
+        #  (not pretty, but allows smoketests to pass on Py3)
+        if sys.version_info[0] >= 3:
+            stdout_data = p.communicate(input=b' ')[0].decode('ascii')
+        else:
+            stdout_data = p.communicate(input=' ')[0]
+        
+        if __debug__:    
+            log(DEBUG-3, stdout_data)
+        
+        if p.returncode!=0:
+            raise RuntimeError("LKH failed with the return code %s"%p.returncode)
+        
+        # 4. Process output
+        tour = []
+        with open(temp_output_file_path, 'r') as output_file:
+            skip = True
+            for l in output_file.readlines():
+                l = l.strip()
+                if l == "EOF" or l == "-1":
+                    skip = True
+                elif not skip:
+                    tour.append( int(l)-1 )
+                if l == "TOUR_SECTION":
+                    skip = False
+    finally:
+        # whatever happens, do not leave a running solver or files behind
+        if p is not None and p.returncode is None:
+            p.kill()
+            p.communicate()
+        for temp_file_path in temp_file_paths:
+            if os.path.exists(temp_file_path):
+                os.remove(temp_file_path)
+    
+    if sorted(tour)!=list(range(len(selected_idxs))):
+        raise RuntimeError("LKH did not produce a complete tour")
     
-    if are_float_distances:
-        obj_f = obj_f/float_accuracy;
+    sol = [selected_idxs[i] for i in tour]
+    if 0 in sol:
+        # make the route start from (and return to) the depot
+        first_pos = sol.index(0)
+        sol = sol[first_pos:]+sol[:first_pos]
+    sol.append(sol[0])
     
-    return sol, obj_f
+    return sol, objf(sol, D)
     
 if __name__=="__main__":
     from verypy.shared_cli import tsp_cli
-- 
2.43.0


From 2ddd9e2b740ecac004353748570c7d50eac2775b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:22 +0000
Subject: [PATCH 12/41] fix: reject partially read problem files, depot
 permutation, service time section, file list order and duplicates, runs
 without a solution

---
 verypy/cvrp_io.py    | 29 +++++++++++++++++++++++------
 verypy/shared_cli.py | 12 ++++++++++--
 verypy/util.py       |  4 +++-
 3 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 115ba5e..ab01023 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -211,6 +211,7 @@ def read_TSPLIB_CVRP(file_name):
         D_needs_update = False     
         edge_weight_type = None
         edge_weight_format = None
+        demands_read = points_read = dd_points_read = 0
         
         depot_ids = []
         
@@ -339,6 +340,7 @@ def read_TSPLIB_CVRP(file_name):
                         points[section_pos][0] = x
                         points[section_pos][1] = y
                         section_pos+=1
+                        points_read = section_pos
                     elif  section == 'DISPLAY_DATA_SECTION':
                         coords = line.split()
                         x = float( coords [1] )
@@ -346,11 +348,13 @@ def read_TSPLIB_CVRP(file_name):
                         dd_points[section_pos][0] = x
                         dd_points[section_pos][1] = y
                         section_pos+=1
+                        dd_points_read = section_pos
                     elif  section == 'DEMAND_SECTION':
                         demand = line.split()
                         c = float( demand[1] )
                         demands[section_pos] = c # pylint: disable=unsupported-assignment-operation
                         section_pos+=1
+                        demands_read = section_pos
                     elif  section == 'DEPOT_SECTION': 
                         value = int(line)
                         if value>0:
@@ -371,6 +375,18 @@ def read_TSPLIB_CVRP(file_name):
             #print edge_weight_format, ij_section_pos 
             raise IOError("Explicit distance matrix did not have enough values")
     
+        # e.g. a partially written or transferred file
+        for section_name, section_values, values_read in (
+            ('NODE_COORD_SECTION', points, points_read),
+            ('DISPLAY_DATA_SECTION', dd_points, dd_points_read),
+            ('DEMAND_SECTION', demands, demands_read)):
+            if section_values is not None and values_read<len(section_values):
+                raise IOError("%s did not have enough values"%section_name)
+        if D is None and not D_needs_update:
+            raise IOError("The file does not define the distances")
+        if demands is None and C is not None:
+            raise IOError("Capacity given, but DEMAND_SECTION is missing")
+    
     if D_needs_update:
         D = calculate_D(points, None, edge_weight_type )
     
@@ -385,10 +401,7 @@ def read_TSPLIB_CVRP(file_name):
         # make sure depot is the 0
         idx_0 = depot_ids[0]-1
         row_col_permutation = [idx_0]+list(range(0,idx_0))+list(range(idx_0+1,len(D)))
-        for i in range(N):
-            D[:,i] = D[row_col_permutation,i]
-        for i in range(N):
-            D[i,:] = D[i,row_col_permutation]
+        D = D[row_col_permutation,:][:,row_col_permutation]
         if demands is not None and len(demands)>0:
             demands = [demands[idx_0]]+demands[:idx_0]+demands[idx_0+1:]
         if points is not None and len(points)>0:
@@ -418,16 +431,20 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     reading_service_time_section = False
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
+            if reading_service_time_section and len(l.split())!=2:
+                reading_service_time_section = False
             if reading_service_time_section:
                 nid, nst = l.split()
+                if int(nid)==1:
+                    continue # there is no service at the depot
                 if "." in nst:
                     nst = float(nst)
                 else:
                     nst = int(nst)
                 if ST is not None and nst!=ST:
                     raise IOError("Only single (same) service time for all customers is supported")
-                elif nid!=1:
-                    ST = nst
+                ST = nst
+                continue
             if "DISTANCE" in l:
                 if "." in l:
                     L = float( l.split()[-1] )
diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 809eddf..54e6896 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -150,16 +150,24 @@ def read_and_solve_a_problem(problem_instance_path, with_algorithm_function,
         print_solution_statistics(n_best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
     
     if interrupted:
-        raise KeyboardInterrupt()
+        raise KeyboardInterrupt(best_sol)
     
+    if best_sol is None:
+        # the algorithm did not find a solution
+        return None, float('inf'), float('inf'), elapsed
     return best_sol, objf(best_sol, D), objf(best_sol, D_c), elapsed
     
 def get_a_problem_file_list(problem_paths, recursive=False):
     files_to_solve = []
     if recursive:
+        searched_paths = []
         for problem_path in problem_paths:
+            searched_paths.append(problem_path)
             for root, dirs, _ in walk(problem_path):
-                problem_paths += [path.join(root,d) for d in dirs]
+                # also controls in which order the directories are visited
+                dirs[:] = natural_sort(dirs)
+                searched_paths += [path.join(root,d) for d in dirs]
+        problem_paths = searched_paths
 
     for problem_path in problem_paths:
         if path.isdir(problem_path):
diff --git a/verypy/util.py b/verypy/util.py
index c9d727f..37d284d 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -179,7 +179,9 @@ def natural_sort(l):
     """
     convert = lambda text: int(text) if text.isdigit() else text.lower()
     alphanum_key = lambda key: [convert(c) for c in re.split('([0-9]+)', key)]
-    return sorted(l, key=alphanum_key)
+    # e.g. "a1" and "a01" have the same key, use also the string itself to make 
+    #  sure that the result does not depend on the original order of l
+    return sorted(l, key=lambda s: (alphanum_key(s), s))
 
 class OrderedDictSet:
     """ A wrapper that allows use of ordered dictionary as a ordered set.
-- 
2.43.0


From 8a6713809bf21c409bd5e0245d06f066773c1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:10 +0000
Subject: [PATCH 13/41] fix: the command line runner survives unreadable files,
 failing algorithms, and interrupts

---
 verypy/VeRyPy.py | 253 ++++++++++++++++++++++++++---------------------
 1 file changed, 138 insertions(+), 115 deletions(-)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 5947bb6..976568b 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -147,136 +147,155 @@ def main(overridden_args=None):
     instance_data = dict()
 
     interrupted = False
-    for pfn in files_to_solve:
-        bn = path.basename(pfn).replace(".vrp","").replace(".tsp","").replace(".pickle","")
+    try:
+        for pfn in files_to_solve:
+            bn = path.basename(pfn).replace(".vrp","").replace(".tsp","").replace(".pickle","")
         
-        try:
-           N, points, dd_points, d, D, C, ewt, K, L, st = pickle.load( open( pfn, "rb" ) )
-        except:
-           N, points, dd_points, d, D, C, ewt = cvrp_io.read_TSPLIB_CVRP(pfn)
-           K, L, st = cvrp_io.read_TSBLIB_additional_constraints(pfn)
-        
-        # We do not have point coodrinates, but we have D! 
-        if points is None:
-            if dd_points is not None:
-                points = dd_points
-            else:
-                points, ewt = cvrp_ops.generate_missing_coordinates(D)
-        
-        if app_args.dist_weight_format == "TRUNCATE":
-            D = np.floor(D)
-            ewt = "FLOOR_2D"
-        if app_args.dist_weight_format == "ROUND":
-            D = np.int(D)
-            ewt = "EUC_2D"
-            
-        # Bake service time to D (if needed)
-        D_c = cvrp_ops.D2D_c(D, st) if st else D
-        
-        for algo_abbreviation, algo_name, _, algo_f in algos:
-            if not app_args.minimal_output:
-                print("Solving %s with %s"%(bn, algo_name))
-            start_t = time()
-            sol = None
             try:
-                if not app_args.simulate:
-                    sol = algo_f(points, D_c, d, C, L, st, ewt,
-                                 run_single_iteration, minimize_K)
-            except (KeyboardInterrupt, Exception) as e:
-                if type(e) is KeyboardInterrupt:
-                    interrupted = True
-                    # if interrupted on initial sol gen, return the best of those
-                    if len(e.args)>0 and type(e.args[0]) is list:
-                        sol = e.args[0]
-                    if not app_args.minimal_output:
-                        print("WARNING: Interrupted solving %s with %s"%
-                              (bn, algo_abbreviation), file=sys.stderr)
-                else:
-                    if not app_args.minimal_output:
-                        print("ERROR: Failed to solve %s with %s because %s"%
-                              (bn, algo_abbreviation, str(e) ), file=sys.stderr)
-                    sol = None
+                try:
+                    with open( pfn, "rb" ) as pickle_file:
+                        N, points, dd_points, d, D, C, ewt, K, L, st = pickle.load( pickle_file )
+                except Exception:
+                    N, points, dd_points, d, D, C, ewt = cvrp_io.read_TSPLIB_CVRP(pfn)
+                    K, L, st = cvrp_io.read_TSBLIB_additional_constraints(pfn)
             
-            if sol:
-                sol = cvrp_ops.normalize_solution(sol)
-                if app_args.show_solution_cost:
-                    sol_q = cvrp_ops.recalculate_objective(sol, D_c)
-                else:
-                    sol_q = cvrp_ops.recalculate_objective(sol, D)
-                sol_K = sol.count(0)-1
+                # We do not have point coodrinates, but we have D! 
+                if points is None:
+                    if dd_points is not None:
+                        points = dd_points
+                    else:
+                        points, ewt = cvrp_ops.generate_missing_coordinates(D)
+            
+                if app_args.dist_weight_format == "TRUNCATE":
+                    D = np.floor(D)
+                    ewt = "FLOOR_2D"
+                if app_args.dist_weight_format == "ROUND":
+                    D = np.round(D)
+                    ewt = "EUC_2D"
                 
-                if app_args.local_search_operators:
-                    if not app_args.minimal_output:
-                        print("Postoptimize with %s ..."%
-                              ", ".join(app_args.local_search_operators),end="")
-                    sol = do_local_search(ls_ops, sol, D, d, C, L)
-                    sol = cvrp_ops.normalize_solution(sol)
-                        
-                    if app_args.show_solution_cost:
-                        ls_sol_q = cvrp_ops.recalculate_objective(sol, D_c)
+                # Bake service time to D (if needed)
+                D_c = cvrp_ops.D2D_c(D, st) if st else D
+            except Exception as e:
+                # one unreadable file does not prevent solving the others
+                print("ERROR: Failed to read %s because %s"%(pfn, str(e)), file=sys.stderr)
+                continue
+        
+            for algo_abbreviation, algo_name, _, algo_f in algos:
+                if not app_args.minimal_output:
+                    print("Solving %s with %s"%(bn, algo_name))
+                start_t = time()
+                sol = None
+                try:
+                    if not app_args.simulate:
+                        sol = algo_f(points, D_c, d, C, L, st, ewt,
+                                     run_single_iteration, minimize_K)
+                except (KeyboardInterrupt, Exception) as e:
+                    if type(e) is KeyboardInterrupt:
+                        interrupted = True
+                        # if interrupted on initial sol gen, return the best of those
+                        if len(e.args)>0 and type(e.args[0]) is list:
+                            sol = e.args[0]
+                        if not app_args.minimal_output:
+                            print("WARNING: Interrupted solving %s with %s"%
+                                  (bn, algo_abbreviation), file=sys.stderr)
                     else:
-                        ls_sol_q = cvrp_ops.recalculate_objective(sol, D)
-                    if ls_sol_q<sol_q:
                         if not app_args.minimal_output:
-                            print(" improved by %.2f%%."%(1-ls_sol_q/sol_q))
-                        sol_q = ls_sol_q
-                        sol_K = sol.count(0)-1
+                            print("ERROR: Failed to solve %s with %s because %s"%
+                                  (bn, algo_abbreviation, str(e) ), file=sys.stderr)
+                        sol = None
+            
+                if sol:
+                    sol = cvrp_ops.normalize_solution(sol)
+                    if app_args.show_solution_cost:
+                        sol_q = cvrp_ops.recalculate_objective(sol, D_c)
                     else:
+                        sol_q = cvrp_ops.recalculate_objective(sol, D)
+                    sol_K = sol.count(0)-1
+                
+                    if app_args.local_search_operators:
                         if not app_args.minimal_output:
-                            print(" did not find improving moves.")
-            else:
-                sol_q = float('inf')
+                            print("Postoptimize with %s ..."%
+                                  ", ".join(app_args.local_search_operators),end="")
+                        try:
+                            ls_sol = do_local_search(ls_ops, sol, D, d, C, L)
+                            sol = cvrp_ops.normalize_solution(ls_sol)
+                        except KeyboardInterrupt:
+                            # keep the solution we already have
+                            interrupted = True
+                            print("WARNING: Interrupted post-optimizing %s"%bn, file=sys.stderr)
+                        except Exception as e:
+                            print("ERROR: Failed to post-optimize %s because %s"%
+                                  (bn, str(e)), file=sys.stderr)
+                        
+                        if app_args.show_solution_cost:
+                            ls_sol_q = cvrp_ops.recalculate_objective(sol, D_c)
+                        else:
+                            ls_sol_q = cvrp_ops.recalculate_objective(sol, D)
+                        if ls_sol_q<sol_q:
+                            if not app_args.minimal_output:
+                                print(" improved by %.2f%%."%(1-ls_sol_q/sol_q))
+                            sol_q = ls_sol_q
+                            sol_K = sol.count(0)-1
+                        else:
+                            if not app_args.minimal_output:
+                                print(" did not find improving moves.")
+                else:
+                    sol_q = float('inf')
 
  
-            elapsed_t = time()-start_t
-            if app_args.minimal_output:
-                print("%s;%s"%(algo_abbreviation, bn),end="")
-                timecap_symbol = "*" if interrupted else ""
-                if sol:
-                    feasible = all( cvrp_ops.validate_solution_feasibility( sol,D_c,d,C,L,st) )
-                    print(";%s;%.2f;%d;%.2f%s"%
-                          (str(feasible), sol_q, sol_K, elapsed_t, timecap_symbol))
-                else:
-                    print(";False;inf;inf;%.2f%s"%(elapsed_t, timecap_symbol))
+                elapsed_t = time()-start_t
+                if app_args.minimal_output:
+                    print("%s;%s"%(algo_abbreviation, bn),end="")
+                    timecap_symbol = "*" if interrupted else ""
+                    if sol:
+                        feasible = all( cvrp_ops.validate_solution_feasibility( sol,D_c,d,C,L,st) )
+                        print(";%s;%.2f;%d;%.2f%s"%
+                              (str(feasible), sol_q, sol_K, elapsed_t, timecap_symbol))
+                    else:
+                        print(";False;inf;inf;%.2f%s"%(elapsed_t, timecap_symbol))
                     
-            elif sol:
-                # Minimal output is not enabled, print like crazy :)
+                elif sol:
+                    # Minimal output is not enabled, print like crazy :)
                 
-                if app_args.print_elapsed_time:
-                    print("Algorithm produced a solution in %.3f s\n"%(elapsed_t))
-                else:
-                    #just a newline
-                    print()
+                    if app_args.print_elapsed_time:
+                        print("Algorithm produced a solution in %.3f s\n"%(elapsed_t))
+                    else:
+                        #just a newline
+                        print()
                     
-                tightness = None
-                if C and sol_K:
-                    tightness = (sum(d)/(C*sol_K))
-                if not bn in instance_data or sol_K<instance_data[bn][1]:
-                    #"N K C tightness L st"
-                    instance_data[bn] = (N,sol_K,C,"%.3f"%tightness,L,st)
+                    tightness = None
+                    if C and sol_K:
+                        tightness = (sum(d)/(C*sol_K))
+                    if not bn in instance_data or sol_K<instance_data[bn][1]:
+                        #"N K C tightness L st"
+                        instance_data[bn] = (N,sol_K,C,"%.3f"%tightness if tightness else None,L,st)
                     
-                shared_cli.print_problem_information(
-                    points, D_c, d, C, L, st, tightness,
-                    verbosity=app_args.verbosity)
+                    shared_cli.print_problem_information(
+                        points, D_c, d, C, L, st, tightness,
+                        verbosity=app_args.verbosity)
                 
-                solution_print_verbosity = 3 if app_args.print_route_stat else 1
-                shared_cli.print_solution_statistics(sol, D, D_c, d,
-                                                     C, L, st,
-                                                     solution_print_verbosity)
+                    solution_print_verbosity = 3 if app_args.print_route_stat else 1
+                    shared_cli.print_solution_statistics(sol, D, D_c, d,
+                                                         C, L, st,
+                                                         solution_print_verbosity)
                     
-                if app_args.print_vrph_sol:
-                    print("SOLUTION IN VRPH FORMAT:")
-                    print(" ".join( str(n) for n in cvrp_io.as_VRPH_solution(sol)))
-                print("\n")
+                    if app_args.print_vrph_sol:
+                        print("SOLUTION IN VRPH FORMAT:")
+                        print(" ".join( str(n) for n in cvrp_io.as_VRPH_solution(sol)))
+                    print("\n")
                 
-            short_algo_name = algo_name
-            results[bn][short_algo_name] = sol_q
+                short_algo_name = algo_name
+                results[bn][short_algo_name] = sol_q
             
+                if interrupted:
+                    break # algo loop
             if interrupted:
-                break # algo loop
-        if interrupted:
-                break # problem file loop
-            
+                    break # problem file loop
+    except KeyboardInterrupt:
+        # report the results we have collected so far
+        interrupted = True
+        print("WARNING: Interrupted", file=sys.stderr)
+
     ## Print collected results 
     sys.stdout.flush()
     sys.stderr.flush()
@@ -284,9 +303,12 @@ def main(overridden_args=None):
         print("\n")
         print_title = True
         ls_label = "+".join(ls_algo_names)
+        # if interrupted, some of the problems may not have all of the results
+        all_algo_names = sorted(set(algo_name for algo_results in results.values()
+                                              for algo_name in algo_results))
         for problem, algo_results in sorted(results.items()):
             algo_names = [ "%s+%s"%(algo_name,ls_label) if ls_algo_names else (algo_name)\
-                           for algo_name in sorted(algo_results.keys())]
+                           for algo_name in all_algo_names]
             
             if print_title:
                 instance_fields = "instance\t"
@@ -298,9 +320,10 @@ def main(overridden_args=None):
             print(problem,end="")
             if PRINT_INSTANCE_DATA:            
                 print("\t",end="")
-                print("\t".join( str(e) for e in instance_data[problem] ),end="")
-            for _, result in sorted(algo_results.items()):
-                print("\t", result,end="")
+                print("\t".join( str(e) for e in
+                                 instance_data.get(problem, ["-"]*6) ),end="")
+            for algo_name in all_algo_names:
+                print("\t", algo_results.get(algo_name, "-"),end="")
             print()
     sys.stdout.flush()
     sys.stderr.flush()
-- 
2.43.0


From 811d2ff234e44b420f9836977d4ce392cdf92c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:05 +0000
Subject: [PATCH 14/41] fix: petal heuristic must not return an infeasible
 solution or loosen K for ever

---
 verypy/classic_heuristics/petalvrp.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 7d2f7e3..4e9f633 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -866,7 +866,7 @@ def petal_init(points, D, d, C, L, K=None,
                     ptl_set = PTL_SET.REDUCED
                 elif ptl_set == PTL_SET.REDUCED:
                     ptl_set = PTL_SET.EXTENDED
-                elif K_constraint:
+                elif K_constraint and K_constraint<N-1 and not best_sol_feasible:
                     ptl_set = PTL_SET.RESTRICTED
                     K_constraint = K_constraint+1
                 else:
@@ -923,19 +923,23 @@ def petal_init(points, D, d, C, L, K=None,
                     if (not best_sol_feasible):
                         log(DEBUG, "No feasible solution found, using COMPLETE petal set.")
                 ptl_set=PTL_SET.EXTENDED
-            elif (not best_sol_feasible) and K_constraint:
+            elif (not best_sol_feasible) and K_constraint and K_constraint<N-1:
                 if __debug__:
                     log(DEBUG, "No feasible solution found, loosening K constraint.")
                 # As a last resort, relax K
                 K_constraint = K_constraint+1
                 ptl_set=PTL_SET.RESTRICTED
             elif not (min_iterations and iteration_counter<min_iterations) and\
-                (required_iterations is None):
+                (required_iterations is None or
+                 iteration_counter>=required_iterations):
                 # Finally, abort if no improvements can be found.
                 break
                 
+            # Do not settle for an infeasible solution if there is still a way
+            #  to find a feasible one.
             if required_iterations and iteration_counter>=required_iterations and\
-                not (min_iterations and iteration_counter<min_iterations):        
+                not (min_iterations and iteration_counter<min_iterations) and\
+                best_sol_feasible:
                 break # main iteration loop
         
             ## IMPROVEMENT PHASE 
-- 
2.43.0


From 483e2aa42b52bce859acd6c3a5304bd45a68b689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:32 +0000
Subject: [PATCH 15/41] fix: a failure of the MIP solver must not make the
 petal heuristic return an incomplete solution

---
 verypy/classic_heuristics/petalvrp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 4e9f633..186811e 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -430,6 +430,8 @@ def _relax_customer_constraints_with_feasRelax(m, customer_cover_constraints, ac
         raise GurobiError(10023, "Gurobi timeout reached when attempting to solve relaxed SCPCVRP")
     elif m.Status == GRB.INTERRUPTED:
         raise KeyboardInterrupt()
+    elif m.Status not in (GRB.INFEASIBLE, GRB.INF_OR_UNBD):
+        raise GurobiError(10023, "Gurobi failed (status %d) to solve relaxed SCPCVRP"%m.Status)
     return None,False
     
 def _solve_set_covering(N, active_ptls, relaxed_ptls, forbidden_combos,
@@ -511,6 +513,8 @@ def _solve_set_covering(N, active_ptls, relaxed_ptls, forbidden_combos,
     # Sometimes the solution is infeasible, try to relax it a little.
     elif m.Status == GRB.INFEASIBLE and allow_infeasible:
         return _relax_customer_constraints_with_feasRelax(m, c1_constrs, active_ptls, relaxed_ptls)
+    elif m.Status not in (GRB.INFEASIBLE, GRB.INF_OR_UNBD):
+        raise GurobiError(10023, "Gurobi failed (status %d) to solve SCPCVRP"%m.Status)
     return None,False
 
 def _log_debug_scp_info(ptl_set, nptl, routes_with_idxs, is_feasible, active_K):
-- 
2.43.0


From b82a759de06e4f73c28c00689bf5d5cae7cf283d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:25 +0000
Subject: [PATCH 16/41] fix: cost tolerance below the floating point rounding
 error made 2-opt cycle for ever with large distances

---
 verypy/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/verypy/config.py b/verypy/config.py
index e8f5251..7e04b96 100644
--- a/verypy/config.py
+++ b/verypy/config.py
@@ -10,7 +10,9 @@ exe_ext = ".exe" if name == 'nt' else ""
 
 DEBUG_VERBOSITY = 3
 
-COST_EPSILON = 1e-10
+# Must be well over the rounding error of a sum of some distances, or else the
+#  local search takes the noise for an improvement and never ends.
+COST_EPSILON = 1e-6
 CAPACITY_EPSILON = 1e-10
 
 # how many seconds we give to a MIP solver
-- 
2.43.0


From 3a748caedf5b44a4dbb51dd600f4be9f7669534c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:36 +0000
Subject: [PATCH 17/41] fix: nearest neighbor and generalized assignment
 heuristics with nodes at zero distance of each other

---
 verypy/classic_heuristics/gapvrp.py           |  5 ++--
 verypy/classic_heuristics/nearest_neighbor.py |  8 ++++---
 .../tyagi_nearest_neighbor.py                 | 23 ++++++-------------
 3 files changed, 15 insertions(+), 21 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 3267dbc..b9f2392 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -346,7 +346,8 @@ def _sweep_seed_points(points, D, d, C, K, trial=0):
     
     depot_x = points[0][0]
     depot_y = points[0][1]
-    for k, grouped_cone in enumerate(grouped_cones):
+    # (there can be extra cones if the customers are all at the same location)
+    for k, grouped_cone in enumerate(grouped_cones[:K]):
         if __debug__:
             log(DEBUG-3," ===========================================")
             log(DEBUG-3," #%d %s"%(k, str(grouped_cone)))
@@ -721,7 +722,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
             _,tsp_f = solve_tsp(D, list(range(1,N)))
             shortest_depot_edges = list(D[0,1:])
             shortest_depot_edges.sort()
-            startK = int(ceil(tsp_f/L))
+            startK = max(1, int(ceil(tsp_f/L)))
             while True:
                 if tsp_f+sum(shortest_depot_edges[:startK*2])<=startK*L:
                     break
diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index f17b0fe..84fcadc 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -165,9 +165,11 @@ def nearest_neighbor_init(D, d, C, L=None,
     N = len(D)
     node_nearest_neighbors = [None]*N
     for i in range(N):
-        node_nearest_neighbors[i] = _PeekQueue( sorted(enumerate(D[i][:]),
-                                                        key=itemgetter(1)) )
-        node_nearest_neighbors[i].popleft() # pop reference to self
+        # leave out the reference to self (not necessarily the first one, as
+        #  there may be other nodes at zero distance)
+        node_nearest_neighbors[i] = _PeekQueue(
+            sorted( ((j, D_ij) for j, D_ij in enumerate(D[i][:]) if j!=i),
+                    key=itemgetter(1)) )
         
     # bookkeeping on the nodes that we have already served
     served = [False]*N
diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 496d119..4f63ec0 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -76,22 +76,13 @@ def _push_if_popped_to_peek_queue(pq, n, queue_key):
     """ Ensures the element n will be popped again, that is inserts it back 
         to the PeekQueue (see nn.py). This does nothing if n is not yet popped.
         """
-    pushed = False
-    if pq.posleft>=0:
-        if pq.l[pq.posleft][1]<=queue_key:
-            # push back (replace previous)
-            pq.l[pq.posleft] = (n, queue_key) 
-            pq.posleft -= 1
-            pushed = True
-            #if __debug__: log(DEBUG, "REMOVEME: PUSH TO LEFT")
-    if not pushed and pq.posright<-1:
-        if pq.l[pq.posright][1]>=queue_key:
-            # push back (replace previous)
-            pq.l[pq.posright] = (n, queue_key) 
-            pq.posright += 1
-            #if __debug__: log(DEBUG, "REMOVEME: PUSH TO RIGHT")
-    
-    return
+    left, right = pq.posleft+1, len(pq.l)+pq.posright
+    if any( pq.l[i][0]==n for i in range(left, right) ):
+        return # not popped, nothing to do
+    # keep the queue in the order of the distance
+    while left<right and pq.l[left][1]<queue_key:
+        left+=1
+    pq.l.insert(left, (n, queue_key))
     
 def route_end_interchange(route, route_d, route_l, D, d, C, L, 
                      served, node_nearest_neighbors,
-- 
2.43.0


From 12a446b98b61cc9282b859436fd4c0241454413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:03 +0000
Subject: [PATCH 18/41] fix: petal heuristic must check the route cost limit
 also of routes from which a customer was removed

---
 verypy/classic_heuristics/petalvrp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 186811e..8dfd1d5 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -855,6 +855,10 @@ def petal_init(points, D, d, C, L, K=None,
                                          "multiple times and remove those "+
                                          "visits that are unnecessary")
                         sol_feasible = _remove_multiserved(chosen_ptl_routes, D)
+                        # without triangle inequality removing may add cost
+                        if L and any( objf(r, D)-S_EPS>L
+                                      for r in chosen_ptl_routes):
+                            sol_feasible = False
                     else:
                         # Once the first feasible solution is found, we no longer 
                         #  accept infeasible ones!
@@ -978,6 +982,10 @@ def petal_init(points, D, d, C, L, K=None,
                     ird.update_node_set()
                     ird.normalize()
                     tuple_r = tuple(ird.route)
+                    # without triangle inequality removing a customer from
+                    #  a route may make it too long
+                    if L and ird.cost-S_EPS>L:
+                        continue
                     if len(tuple_r)>2 and tuple_r not in seen_ptls:
                         relaxed_ptls.routes.append( ird.route )
                         relaxed_ptls.costs.append( ird.cost ) 
-- 
2.43.0


From a6b353bcdddf0eedb7035432e1317926f6dfea38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:53 +0000
Subject: [PATCH 19/41] fix: Wren and Holliday heuristic must not repeat the
 same moves for ever

---
 verypy/classic_heuristics/wren_holliday_sweep.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 4ac4667..7242e1a 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -620,6 +620,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
         omitted_nodes = set()
         prev_Q_point_sol_f = None    
         prev_iteration_sol_f = None
+        seen_states = set()
         changed = False
         
         try:
@@ -722,6 +723,12 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
                         solution_changed_between_iterations = False
                 prev_iteration_sol_f = sol_f
                 
+                # DELETE may worsen the solution, do not go around in circles
+                state = (deleted, tuple(sorted(tuple(rd.route) for rd in routes)))
+                if state in seen_states:
+                    solution_changed_between_iterations = False
+                seen_states.add(state)
+                
                 if converging and (
                   (full_convergence and not changed) or
                   (not full_convergence and not deleted) or 
-- 
2.43.0


From 03de995a0ad2a0d802b9519f4d95bd172bec0cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 20/41] fix: one point and chain moves must check the cost
 limit also of the route a node is removed from

---
 verypy/local_search/inter_route_operators.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verypy/local_search/inter_route_operators.py b/verypy/local_search/inter_route_operators.py
index 8b23ee5..7107a6c 100644
--- a/verypy/local_search/inter_route_operators.py
+++ b/verypy/local_search/inter_route_operators.py
@@ -254,6 +254,11 @@ def do_1point_move(route1_data, route2_data, D, d=None,
                       -D[remove_after,to_move]\
                       -D[to_move,remove_before]
         
+        # without the triangle inequality (e.g. with rounded distances) also
+        #  a route from which a node is removed can become too long
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         # capacity constraint feasibility check 
         if C and r2_d+d[to_move]-C_EPS>C:
             continue
@@ -624,6 +629,10 @@ def do_chain_move(route1_data, route2_data, route3_data, D, d=None,
                         -D[remove_after,to_move]\
                         -D[to_move,remove_before]
         
+        # route1 can become too long if the triangle inequality does not hold
+        if L and r1_l+remove_delta-S_EPS>L:
+            continue
+        
         for j in range(1,len(route2)-1):
             
             replace_after = route2[j-1]
-- 
2.43.0


From cc26bcea295e32497faa0e693b1ca143ec0dcc4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 21/41] fix: service time with odd or fractional half was
 rounded when baked into the distances

---
 verypy/cvrp_ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_ops.py b/verypy/cvrp_ops.py
index 916b462..f6adfe0 100644
--- a/verypy/cvrp_ops.py
+++ b/verypy/cvrp_ops.py
@@ -236,13 +236,13 @@ def D2D_c(D, st):
     if not st:
         raise ValueError("Service time not set")
     
-    tst = D.dtype.type(st)
-    if float(tst)!=float(st) or float(tst/2)!=float(st/2.0):
+    if D.dtype.type(st)!=st or D.dtype.type(st/2.0)!=st/2.0:
+        # e.g. half of an odd service time is not an integer
         D_c = D.astype('d')
-        halftst = tst/2.0
     else:
         D_c = np.copy(D)    
-        halftst = int(tst/2)
+    tst = D_c.dtype.type(st)
+    halftst = D_c.dtype.type(st/2.0)
     
     D_c[1:,1:]+=tst
     D_c[0,:]+=halftst
-- 
2.43.0


From eb234c5d1ac9bc8f01ea2e4109682c1eb7d44720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:37 +0000
Subject: [PATCH 22/41] fix: results of problem files with the same name
 overwrote each other

---
 verypy/VeRyPy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/verypy/VeRyPy.py b/verypy/VeRyPy.py
index 976568b..2009ba7 100644
--- a/verypy/VeRyPy.py
+++ b/verypy/VeRyPy.py
@@ -145,11 +145,16 @@ def main(overridden_args=None):
     ## 2. solve 
     results = defaultdict(lambda: defaultdict(float))
     instance_data = dict()
+    used_names = set()
 
     interrupted = False
     try:
         for pfn in files_to_solve:
             bn = path.basename(pfn).replace(".vrp","").replace(".tsp","").replace(".pickle","")
+            # there can be files with the same name (e.g. in different folders)
+            if bn in used_names:
+                bn = pfn
+            used_names.add(bn)
         
             try:
                 try:
-- 
2.43.0


From 66a771a6f39bf475fa39a378cb39d05eb2c5cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:52 +0000
Subject: [PATCH 23/41] fix: a problem file cut within the service time section
 must be rejected

---
 verypy/cvrp_io.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index ab01023..d4750d4 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -428,6 +428,8 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
     K = None
     L = None
     ST = None
+    N = None
+    service_times_read = None
     reading_service_time_section = False
     with open(custom_tsplib_file) as fh:
         for l in fh.readlines():
@@ -444,7 +446,10 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
                 if ST is not None and nst!=ST:
                     raise IOError("Only single (same) service time for all customers is supported")
                 ST = nst
+                service_times_read+=1
                 continue
+            if l.split(":")[0].strip()=="DIMENSION":
+                N = int( l.split(":")[-1] )-1 # depot excluded
             if "DISTANCE" in l:
                 if "." in l:
                     L = float( l.split()[-1] )
@@ -459,7 +464,11 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
                 K = int( l.split()[-1] )
             if "SVC_TIME_SECTION" in l:
                 reading_service_time_section = True
+                service_times_read = 0
                     
+    # e.g. a partially written or transferred file
+    if service_times_read is not None and N is not None and service_times_read<N:
+        raise IOError("SVC_TIME_SECTION did not have enough values")
     return K, L, ST
  
 def generate_CVRP(N, C, muC, sdC, regular=False, R=200.0):
-- 
2.43.0


From c2bbaf342207fc17b472025635d649fdbcbfb2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:17 +0000
Subject: [PATCH 24/41] fix: reading a solution file the library wrote failed,
 and counting its routes

---
 verypy/cvrp_io.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index d4750d4..cba5094 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -121,8 +121,7 @@ def read_OPT_CVRP(file_name):
         for l in f.readlines():
             if file_ext == ".opt":
                 if "route" in l.lower():
-                    if not opt_k:
-                        count_k+1
+                    count_k+=1
                     _, routestring = l.split(":")
                     p_idxs = [int(s) for s in routestring.split()]
                     first_node = True
@@ -132,7 +131,8 @@ def read_OPT_CVRP(file_name):
                         solution.append(p_idx)
                         first_node = False
                 if "cost" in l.lower():
-                    _, coststring = l.split()
+                    # "Cost 123" or "Cost : 123"
+                    coststring = l.split()[-1]
                     
                     # tries to convert to int and if it fails to float
                     opt_f = None
@@ -145,7 +145,7 @@ def read_OPT_CVRP(file_name):
     if len(solution)>1:
         solution.append(0)
         
-    if count_k or not opt_k:
+    if not opt_k:
         opt_k = count_k
     elif opt_k!=count_k:
         print("WARNING: the vehicle count in file name and solution differ", file=stderr)
-- 
2.43.0


From 9764162f0670a69b60b715a1dbf73f6fcbed142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:22 +0000
Subject: [PATCH 25/41] fix: written problem files with selected nodes, or
 without a capacity, were those of another problem

---
 verypy/cvrp_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index cba5094..14ea3b0 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -552,6 +552,8 @@ def write_TSPLIB_file(tsplib_file_path, D,
             problem_file.write("TYPE: CVRP\n")
             if C:
                 problem_file.write("CAPACITY: %d\n"%C)
+            elif d:
+                problem_file.write("CAPACITY: %d\n"%sum(d))
             else:
                 problem_file.write("CAPACITY: %d\n"%len(D))
             if L:
@@ -575,10 +577,10 @@ def write_TSPLIB_file(tsplib_file_path, D,
         if write_cvrp:
             problem_file.write("DEMAND_SECTION\n1 0\n")
             if d:
-                for i in range(2,len(d)+1):
-                    problem_file.write("%d %d\n"%(i, int(d[i-1])))
+                for ii, i in enumerate(selected_idxs[1:]):
+                    problem_file.write("%d %d\n"%(ii+2, int(d[i])))
             else:
-                for i in range(2,len(D)+1):
+                for i in range(2,len(selected_idxs)+1):
                     problem_file.write("%d 1\n"%i)
             problem_file.write("DEPOT_SECTION\n")
             problem_file.write("1\n")
-- 
2.43.0


From 69351abd4a475bba09e78460f6ab755a28108a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:58 +0000
Subject: [PATCH 26/41] fix: problem folders with glob characters or non-ASCII
 digits in their name were skipped or crashed the listing

---
 verypy/shared_cli.py | 9 ++++++---
 verypy/util.py       | 5 +++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 54e6896..994e9d7 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -9,6 +9,7 @@ fuctionality for the classical heuristics."""
 from __future__ import print_function
 from __future__ import division
 
+import re
 import sys
 from time import time
 from os import path, walk
@@ -171,11 +172,13 @@ def get_a_problem_file_list(problem_paths, recursive=False):
 
     for problem_path in problem_paths:
         if path.isdir(problem_path):
-            for in_fn in natural_sort(glob(path.join(problem_path, "*.vrp"))):
+            # the name of the folder is not a pattern
+            glob_path = re.sub(r"([*?[])", r"[\1]", problem_path)
+            for in_fn in natural_sort(glob(path.join(glob_path, "*.vrp"))):
                 files_to_solve.append( in_fn )
-            for in_fn in natural_sort(glob(path.join(problem_path, "*.tsp"))):
+            for in_fn in natural_sort(glob(path.join(glob_path, "*.tsp"))):
                 files_to_solve.append( in_fn )
-            for in_fn in natural_sort(glob(path.join(problem_path, "*.pickle"))):
+            for in_fn in natural_sort(glob(path.join(glob_path, "*.pickle"))):
                 files_to_solve.append( in_fn )
         elif path.isfile(problem_path) and problem_path[-4:].lower()==".txt":
             with open(problem_path, 'r') as vrp_list_file:
diff --git a/verypy/util.py b/verypy/util.py
index 37d284d..e489c1f 100644
--- a/verypy/util.py
+++ b/verypy/util.py
@@ -177,8 +177,9 @@ def natural_sort(l):
     From: https://stackoverflow.com/a/4836734 which attributes Jeff Atwood:
     https://blog.codinghorror.com/sorting-for-humans-natural-sort-order/
     """
-    convert = lambda text: int(text) if text.isdigit() else text.lower()
-    alphanum_key = lambda key: [convert(c) for c in re.split('([0-9]+)', key)]
+    # every other part is a number (str.isdigit accepts also e.g. superscripts)
+    alphanum_key = lambda key: [int(c) if i%2==1 else c.lower()
+                                for i, c in enumerate(re.split('([0-9]+)', key))]
     # e.g. "a1" and "a01" have the same key, use also the string itself to make 
     #  sure that the result does not depend on the original order of l
     return sorted(l, key=lambda s: (alphanum_key(s), s))
-- 
2.43.0


From 1b9ba611e4d461cbd1f5738c9d97e9199eb34961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:01 +0000
Subject: [PATCH 27/41] fix: an interrupted parallel nearest neighbor search
 lost the solutions of its other starts

---
 verypy/classic_heuristics/nearest_neighbor.py | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index 84fcadc..dd73989 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -364,17 +364,29 @@ def get_pnn_algorithm(emerging_route_count="auto"):
             best_sol = sol_snn
             best_f = objf(sol_snn,D)
             best_K = auto_route_count
+            interrupted = False
             for k in range(2,auto_route_count+1):
-                sol = nearest_neighbor_init(D, d, C, L, emerging_route_count=k)
-                sol = without_empty_routes(sol)
-                sol_f = objf(sol,D)
-                sol_K = sol.count(0)-1
+                sol, sol_f, sol_K = None, float('inf'), float('inf')
+                try:
+                    sol = nearest_neighbor_init(D, d, C, L, emerging_route_count=k)
+                except KeyboardInterrupt as e: # or SIGINT
+                    if len(e.args)>0 and type(e.args[0]) is list:
+                        sol = e.args[0]
+                    interrupted = True
+                if sol:
+                    sol = without_empty_routes(sol)
+                    sol_f = objf(sol,D)
+                    sol_K = sol.count(0)-1
                 
                 if is_better_sol(best_f, best_K, sol_f, sol_K, minimize_K):
                     best_sol = sol
                     best_f = sol_f
                     best_K = sol_K
                     
+                if interrupted:
+                    # pass on the current best_sol
+                    raise KeyboardInterrupt(best_sol)
+                    
             return best_sol
     elif emerging_route_count>1:
         def call_init(points, D, d, C, L, st, wtt, single, minimize_K):
-- 
2.43.0


From 35b51a0f6fbd8c143865a534821944b8a8b48ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:39 +0000
Subject: [PATCH 28/41] fix: one temporary file of LKH that could not be
 removed kept the others from being removed

---
 verypy/tsp_solvers/tsp_solver_lkh.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/verypy/tsp_solvers/tsp_solver_lkh.py b/verypy/tsp_solvers/tsp_solver_lkh.py
index 0338d39..01f93b0 100644
--- a/verypy/tsp_solvers/tsp_solver_lkh.py
+++ b/verypy/tsp_solvers/tsp_solver_lkh.py
@@ -114,8 +114,12 @@ def solve_tsp_lkh(D, selected_idxs,
             p.kill()
             p.communicate()
         for temp_file_path in temp_file_paths:
-            if os.path.exists(temp_file_path):
-                os.remove(temp_file_path)
+            try:
+                if os.path.exists(temp_file_path):
+                    os.remove(temp_file_path)
+            except OSError as e:
+                # still remove the rest of the files
+                print("WARNING: Could not remove a temporary file: %s"%e, file=stderr)
     
     if sorted(tour)!=list(range(len(selected_idxs))):
         raise RuntimeError("LKH did not produce a complete tour")
-- 
2.43.0


From 9c4a803c290429760e54f457f5ac2701940daac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 29/41] fix: the runner of TSP solvers failed on rounding
 differences after solving

---
 verypy/shared_cli.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index 994e9d7..a15bca1 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -247,7 +247,8 @@ def tsp_cli(tsp_f_name, tsp_f):
         tsp_o = objf(tsp_sol,D)
         print("SOLUTION:", str(tsp_sol))
         print("COST:", tsp_o)  
-        assert(tsp_f==tsp_o)
+        # the order of summation (or the MIP solver) causes rounding errors
+        assert(abs(tsp_f-tsp_o)<=1e-6*max(1.0, abs(tsp_o)))
     else:
         print("usage: tsp_solver_%s.py TSPLIB_file.tsp"%tsp_f_name, file=sys.stderr)
          
-- 
2.43.0


From 6d5120a7c70206120e2b2c34ef70757aa1f92d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:22 +0000
Subject: [PATCH 30/41] fix: a failing problem stopped the runner of an
 individual heuristic from solving the others

---
 verypy/shared_cli.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/verypy/shared_cli.py b/verypy/shared_cli.py
index a15bca1..d824310 100644
--- a/verypy/shared_cli.py
+++ b/verypy/shared_cli.py
@@ -321,7 +321,11 @@ def cli(init_name, init_desc, init_f):
             if interrupted:
                 break
                 
-        print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
+        if best_sol:
+            print_solution_statistics(best_sol, D, D_c, d, C, L, st, verbosity=verbosity)
+        else:
+            print("No solution found for the", problem_name, file=sys.stderr)
+        return
     
     problem_file_list = get_a_problem_file_list([sys.argv[-1]])
     if not problem_file_list or "-h" in sys.argv or "--help" in sys.argv:
@@ -338,8 +342,18 @@ def cli(init_name, init_desc, init_f):
           "  -b <'cost'|'vehicles'> or <c|K> sets the primary optimization oBjective (default is cost)",
           file=sys.stderr)
     elif problem_file_list:
+        failed = False
         for problem_path in problem_file_list:
             problem_name = path.basename(problem_path)
             print("Solve", problem_name ,"with", init_name)
-            read_and_solve_a_problem(problem_path, init_f, minimize_K, best_of_n, 
-                                     verbosity, single, print_measured_time)
+            try:
+                read_and_solve_a_problem(problem_path, init_f, minimize_K, best_of_n, 
+                                         verbosity, single, print_measured_time)
+            except Exception as e:
+                # one failure does not prevent solving the other problems
+                failed = True
+                logging.debug("Failure", exc_info=True)
+                print("ERROR: Failed to solve %s with %s because %s"%
+                      (problem_path, init_name, str(e)), file=sys.stderr)
+        if failed:
+            sys.exit(1)
-- 
2.43.0


From 4b682eaf98e2e455fc3c677f0b12f2852bc86c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:15 +0000
Subject: [PATCH 31/41] fix: a comment that mentions a distance is not a route
 cost limit

The free text of NAME and COMMENT lines was searched for the keywords of the
additional constraints.
---
 verypy/cvrp_io.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 14ea3b0..5b84ed5 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -448,6 +448,8 @@ def read_TSBLIB_additional_constraints(custom_tsplib_file):
                 ST = nst
                 service_times_read+=1
                 continue
+            if l.split(":")[0].strip() in ("NAME", "COMMENT"):
+                continue # free text, e.g. "COMMENT: MIN TOTAL DISTANCE 524"
             if l.split(":")[0].strip()=="DIMENSION":
                 N = int( l.split(":")[-1] )-1 # depot excluded
             if "DISTANCE" in l:
-- 
2.43.0


From 8a25d4b2fab651ca44e65238928d6a8c01635cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:41 +0000
Subject: [PATCH 32/41] fix: an interrupted matching based savings algorithm
 does not need demands

Without demands (only a route cost limit) the handler of an interrupt failed
with a TypeError.
---
 verypy/classic_heuristics/matchingvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/matchingvrp.py b/verypy/classic_heuristics/matchingvrp.py
index 469e4c0..d1a045b 100644
--- a/verypy/classic_heuristics/matchingvrp.py
+++ b/verypy/classic_heuristics/matchingvrp.py
@@ -108,7 +108,7 @@ def _get_tsp_sol(nodes, cache, D, solve_tsp):
 
 def _get_demand(nodes, cache, d):
     if not nodes in cache:
-        cache[nodes] = sum( d[n] for n in nodes )
+        cache[nodes] = sum( d[n] for n in nodes ) if d else 0
     return cache[nodes]
 
 def _calculate_secondary_criteria(w_ij, x_ij_keys, n):
-- 
2.43.0


From fca330419047a15a529ade6ce625eb76d34a3028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:59 +0000
Subject: [PATCH 33/41] fix: a single iteration Wren-Holliday sweep of only one
 customer

The fixed start position does not exist if there is only one customer.
---
 verypy/classic_heuristics/wren_holliday_sweep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index 7242e1a..ae791e4 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -570,7 +570,8 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
             nodes = list(range(N-1))
             sweeps.extend( zip( nodes, [cur_dir]*len(nodes) ) )
         elif type(seed_node)==int:
-            sweeps.append( [seed_node, cur_dir] )
+            # there may be fewer customers
+            sweeps.append( [seed_node%(N-1), cur_dir] )
         
     ## PHASE 1 : "Generate ... initial solutions and choose the best"    
     initial_sols  = []
-- 
2.43.0


From 1d2c151e2e6688a4bb6d3c8371ae99746e8054e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:59 +0000
Subject: [PATCH 34/41] fix: Tyagi nearest neighbor with only one customer

There is no plan without the only customer to compare with.
---
 verypy/classic_heuristics/tyagi_nearest_neighbor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/tyagi_nearest_neighbor.py b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
index 4f63ec0..230dfff 100644
--- a/verypy/classic_heuristics/tyagi_nearest_neighbor.py
+++ b/verypy/classic_heuristics/tyagi_nearest_neighbor.py
@@ -273,7 +273,7 @@ def tyagi_init(D, d, C, L=None,
     ## Tyagi heuristic has a special case for the single node routes
     try:
         single_nodes = [r[1] for r in routes if len(r)==3]
-        if C and (may_have_single_node_route or len(single_nodes)>0):
+        if C and len(D)>2 and (may_have_single_node_route or len(single_nodes)>0):
             N = len(D)
             best_K = solution.count(0)-1
             
-- 
2.43.0


From 5cf30afbb19b48407f178c9ef40c3fec43621572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:59 +0000
Subject: [PATCH 35/41] fix: suppression savings found no plan for a problem
 with only one customer

It did not make a single start without merges to suppress.
---
 verypy/classic_heuristics/suppression_savings.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/suppression_savings.py b/verypy/classic_heuristics/suppression_savings.py
index 760984f..6affd3d 100644
--- a/verypy/classic_heuristics/suppression_savings.py
+++ b/verypy/classic_heuristics/suppression_savings.py
@@ -77,6 +77,9 @@ def supression_savings_function(D, suppressed, savings_cache=None):
             savings_cache.sort(reverse=True)
             
     
+    if not savings_cache:
+        return savings_cache # only one customer, there is nothing to suppress
+    
     first_savings = savings_cache[0]
     suppress = (first_savings[2], first_savings[3])
     if __debug__:
@@ -112,7 +115,7 @@ def suppression_savings_init(D,d,C,L, minimize_K=False, Lprime="auto"):
         # according to the (limited) experimental data of the Holmes & Parker
         #  (1976), for best results this can grow linearly.
         Lprime = int(N/7)+5
-    Lprime = min(Lprime, int((N**2-N)/2))
+    Lprime = max(1, min(Lprime, int((N**2-N)/2)))
     
     best_sol = None
     best_f = None
-- 
2.43.0


From 0fddbedc6291a3f51f087a4ef796cdeb9e8f93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:37 +0000
Subject: [PATCH 36/41] fix: cheapest insertion failed if there were more
 emerging routes than customers

---
 verypy/classic_heuristics/cheapest_insertion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/cheapest_insertion.py b/verypy/classic_heuristics/cheapest_insertion.py
index f5504f7..fa34f30 100644
--- a/verypy/classic_heuristics/cheapest_insertion.py
+++ b/verypy/classic_heuristics/cheapest_insertion.py
@@ -308,8 +308,9 @@ def cheapest_insertion_init(D, d, C, L=None, minimize_K=False,
     else:
         raise ValueError("Unknown route initialization method '%s'"%initialize_routes_with)
         
+    # (there may be fewer customers than emerging routes)
     route_datas = [_initialize_new_route(seed_customers, unrouted, D, d)
-                   for k in range(emerging_route_count)]
+                   for k in range(emerging_route_count) if len(unrouted)>0]
     if __debug__:
         for ri, rd in enumerate(route_datas):
             log(DEBUG, "Initialized a new route #%d %s"%(ri, str(list(rd.route))))
-- 
2.43.0


From 77388f09ba208abb245a2ab7ab9a3abd29530830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:37 +0000
Subject: [PATCH 37/41] fix: nearest neighbor failed to select the 'nearest'
 seeds when the nodes ran out

---
 verypy/classic_heuristics/nearest_neighbor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/nearest_neighbor.py b/verypy/classic_heuristics/nearest_neighbor.py
index dd73989..a1229d6 100644
--- a/verypy/classic_heuristics/nearest_neighbor.py
+++ b/verypy/classic_heuristics/nearest_neighbor.py
@@ -99,16 +99,20 @@ def get_seed_node(seed_mode, D, node_nearest_neighbors, served):
                     continue
                 elif seed_node==None:
                     seed_node = i # in case there is no pair                                
+                nearest = None
                 while not served[i] and len(node_nearest_neighbors[i])>0:
                     nearest = node_nearest_neighbors[i].peekleft()[0]
                     if served[nearest]:
                         #print("pop", nearest)
                         node_nearest_neighbors[i].popleft()
+                        nearest = None
                     else:
                         break
-                if D[i,nearest] < nearest_distance:
+                if nearest is not None and D[i,nearest] < nearest_distance:
                     seed_node  = i
                     nearest_distance = D[i,nearest]
+            if seed_node is None:
+                raise IndexError("All of the nodes are served")
         else:
             raise ValueError("Only 'farthest', 'closest', and "+
                              "'nearest' route initialization "+
-- 
2.43.0


From f375b45a363992a494c6b344429e55617d95dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:37 +0000
Subject: [PATCH 38/41] fix: sequential savings initialized with savings failed
 with one customer

---
 verypy/classic_heuristics/sequential_savings.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/verypy/classic_heuristics/sequential_savings.py b/verypy/classic_heuristics/sequential_savings.py
index 4d37ee0..4666dd4 100644
--- a/verypy/classic_heuristics/sequential_savings.py
+++ b/verypy/classic_heuristics/sequential_savings.py
@@ -98,8 +98,8 @@ def sequential_savings_init(D, d, C, L=None, minimize_K=False,
         seed_customers = sum(
             (clarke_wright_savings(unrouted, i, D) for i in range(1,N)), [])
         seed_customers.sort()
-        _,_,_,seed_customers = zip(*seed_customers)
-        seed_customers = list(seed_customers)
+        # (a lone customer does not have savings)
+        seed_customers = [s[3] for s in seed_customers] or list(unrouted)
     elif callable(initialize_routes_with):
         seed_customers = initialize_routes_with(D)
     else:
-- 
2.43.0


From f9f5f6523951d16cedf13ea9d300a117ba5b02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:37 +0000
Subject: [PATCH 39/41] fix: second trial of the large demand seeds of GAP
 failed with an IndexError

---
 verypy/classic_heuristics/gapvrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index b9f2392..9399a50 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -526,7 +526,7 @@ def _large_demand_seed_points(points, D, d, C, K, trial=0):
         sorted_d = [(d[i], i) for i in not_over_half_idxs]
         sorted_d.sort(reverse=True)
         sorted_d_idxs = list(zip(*sorted_d))[1]
-        additional_large_d_idxs = sorted_d_idxs[max(0, trial-N):min(N,trial)]
+        additional_large_d_idxs = list(sorted_d_idxs[max(0, trial-N):min(N,trial)])
         candidate_d_idxs+=additional_large_d_idxs
         candidate_d_mask[additional_large_d_idxs] = True
     
-- 
2.43.0


From 1ab32cbb93bd256245ff7422aa36db24528a3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:36 +0000
Subject: [PATCH 40/41] fix: nodes of a problem file that are not listed in
 order got coordinates and demands of other nodes

---
 verypy/cvrp_io.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/verypy/cvrp_io.py b/verypy/cvrp_io.py
index 5b84ed5..18492ea 100644
--- a/verypy/cvrp_io.py
+++ b/verypy/cvrp_io.py
@@ -153,6 +153,18 @@ def read_OPT_CVRP(file_name):
     return solution, opt_f, opt_k
          
        
+def _in_node_order(values, node_ids):
+    """ Reorders the values of a section that were read in the order they are in
+    the file. The nodes are numbered from 1 (with some other numbering the order
+    of the file is kept)."""
+    if not values:
+        return values
+    file_pos = dict( (node_id, i) for i, node_id in enumerate(node_ids) )
+    expected_ids = [str(i+1) for i in range(len(values))]
+    if set(file_pos)!=set(expected_ids):
+        return values
+    return [values[file_pos[node_id]] for node_id in expected_ids]
+
 ProblemDefinition = namedtuple('ProblemDefinition',
     ['size', 'coordinate_points', 'display_coordinate_points',
      'customer_demands', 'distance_matrix', 'capacity_constraint', 'edge_weight_type'])
@@ -212,6 +224,7 @@ def read_TSPLIB_CVRP(file_name):
         edge_weight_type = None
         edge_weight_format = None
         demands_read = points_read = dd_points_read = 0
+        demand_ids, point_ids, dd_point_ids = [], [], []
         
         depot_ids = []
         
@@ -258,6 +271,7 @@ def read_TSPLIB_CVRP(file_name):
                         ij_section_pos['i']=1
                 elif 'DEMAND_SECTION' in line:
                     demands = [None]*(N+1)
+                    demand_ids = []
                     section = 'DEMAND_SECTION'
                     section_pos = 0
                 elif 'DEPOT_SECTION' in line:
@@ -266,6 +280,7 @@ def read_TSPLIB_CVRP(file_name):
                 elif 'NODE_COORD_SECTION' in line:
                     section = 'NODE_COORD_SECTION'
                     points = [ [None, None] for i in range(N+1) ]
+                    point_ids = []
                     if edge_weight_type!='EXPLICIT':
                         # sometimes coordinates are incorrectly not given in 
                         #  DISPLAY_DATA_SECTION even if a matrix is defined.
@@ -275,6 +290,7 @@ def read_TSPLIB_CVRP(file_name):
                     if points is None:
                         section = 'DISPLAY_DATA_SECTION'
                         dd_points = [ [None, None] for i in range(N+1) ]
+                        dd_point_ids = []
                         D_needs_update = False
                         section_pos = 0
                     else:
@@ -341,6 +357,7 @@ def read_TSPLIB_CVRP(file_name):
                         points[section_pos][1] = y
                         section_pos+=1
                         points_read = section_pos
+                        point_ids.append(coords[0])
                     elif  section == 'DISPLAY_DATA_SECTION':
                         coords = line.split()
                         x = float( coords [1] )
@@ -349,12 +366,14 @@ def read_TSPLIB_CVRP(file_name):
                         dd_points[section_pos][1] = y
                         section_pos+=1
                         dd_points_read = section_pos
+                        dd_point_ids.append(coords[0])
                     elif  section == 'DEMAND_SECTION':
                         demand = line.split()
                         c = float( demand[1] )
                         demands[section_pos] = c # pylint: disable=unsupported-assignment-operation
                         section_pos+=1
                         demands_read = section_pos
+                        demand_ids.append(demand[0])
                     elif  section == 'DEPOT_SECTION': 
                         value = int(line)
                         if value>0:
@@ -387,6 +406,11 @@ def read_TSPLIB_CVRP(file_name):
         if demands is None and C is not None:
             raise IOError("Capacity given, but DEMAND_SECTION is missing")
     
+    # the nodes can be in any order in these sections
+    points = _in_node_order(points, point_ids)
+    dd_points = _in_node_order(dd_points, dd_point_ids)
+    demands = _in_node_order(demands, demand_ids)
+    
     if D_needs_update:
         D = calculate_D(points, None, edge_weight_type )
     
-- 
2.43.0


From ca2af068115c019162c268e1876bc8d37b42e058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:47 +0000
Subject: [PATCH 41/41] fix: coordinates given as a numpy array were rejected
 with a ValueError

---
 verypy/classic_heuristics/gapvrp.py              | 2 +-
 verypy/classic_heuristics/gillet_miller_sweep.py | 2 +-
 verypy/classic_heuristics/petalvrp.py            | 2 +-
 verypy/classic_heuristics/wren_holliday_sweep.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/verypy/classic_heuristics/gapvrp.py b/verypy/classic_heuristics/gapvrp.py
index 9399a50..fca3cf2 100644
--- a/verypy/classic_heuristics/gapvrp.py
+++ b/verypy/classic_heuristics/gapvrp.py
@@ -706,7 +706,7 @@ def gap_init(points, D, d, C, L=None, st=None, K=None, minimize_K=True,
     if seed_edge_weight_type=="EXPLICIT":
         seed_edge_weight_type = "EUC_2D" if int_dists else "EXACT_2D"
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(D)    
     if K:
diff --git a/verypy/classic_heuristics/gillet_miller_sweep.py b/verypy/classic_heuristics/gillet_miller_sweep.py
index 4046e09..3b921f1 100644
--- a/verypy/classic_heuristics/gillet_miller_sweep.py
+++ b/verypy/classic_heuristics/gillet_miller_sweep.py
@@ -320,7 +320,7 @@ def gillet_miller_init(points, D, d, C, L=None, minimize_K=False,
                  - SMALLEST_ANGLE selects the (somewhat arbitary) customer
                     that has the smallest polar coordinate phi.
     """
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     
     return sweep_init(points, D, d, C, L, minimize_K,
diff --git a/verypy/classic_heuristics/petalvrp.py b/verypy/classic_heuristics/petalvrp.py
index 8dfd1d5..c584961 100644
--- a/verypy/classic_heuristics/petalvrp.py
+++ b/verypy/classic_heuristics/petalvrp.py
@@ -670,7 +670,7 @@ def petal_init(points, D, d, C, L, K=None,
     or more depots to a number of delivery points. JORS, 23(3), 333-344.
     """
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(points)
     
diff --git a/verypy/classic_heuristics/wren_holliday_sweep.py b/verypy/classic_heuristics/wren_holliday_sweep.py
index ae791e4..2b2f980 100644
--- a/verypy/classic_heuristics/wren_holliday_sweep.py
+++ b/verypy/classic_heuristics/wren_holliday_sweep.py
@@ -511,7 +511,7 @@ def wren_holliday_init(points, D, d, C, L=None, minimize_K=False,
     Research Society, 23(3), 333-344.
     """                      
     
-    if not points:
+    if points is None or len(points)==0:
         raise ValueError("The algorithm requires 2D coordinates for the points")
     N = len(D)
     
-- 
2.43.0

