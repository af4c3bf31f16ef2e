"""The documented options of the algorithms that the default configurations do
not use: other seeds, criteria, numbers of emerging routes, directions, ...
A variant is a JSON dictionary of keyword arguments; names of functions are
given as "fn:..." ."""
import importlib

CH = "verypy.classic_heuristics."
MODS = {
    "gpl": ("gaskell_savings", "gaskell_savings_init"),
    "ss": ("sequential_savings", "sequential_savings_init"),
    "gps": ("paessens_savings", "paessens_savings_init"),
    "ims": ("suppression_savings", "suppression_savings_init"),
    "si": ("cheapest_insertion", "cheapest_insertion_init"),
    "pi": ("cheapest_insertion", "cheapest_insertion_init"),
    "mj": ("mole_jameson_insertion", "mole_jameson_insertion_init"),
    "mbsa": ("matchingvrp", "mbsa_init"),
    "cmt": ("cmt_2phase", "cmt_2phase_init"),
    "sn": ("nearest_neighbor", "nearest_neighbor_init"),
    "pn": ("nearest_neighbor", "nearest_neighbor_init"),
    "ty": ("tyagi_nearest_neighbor", "tyagi_init"),
    "swp": ("sweep", "sweep_init"),
    "wh": ("wren_holliday_sweep", "wren_holliday_init"),
    "gm": ("gillet_miller_sweep", "gillet_miller_init"),
    "rfcs": ("rfcs", "route_first_cluster_second_init"),
    "gap": ("gapvrp", "gap_init"),
    "ptl": ("petalvrp", "petal_init"),
    "lr3o": ("lr3opt", "lr3opt_init"),
}
POINTS = ("swp", "wh", "gm", "gap", "ptl")
NO_MINK = ("sn", "pn", "ty", "lr3o")
ALGOS = sorted(MODS)


def gen(g, algo, inst):
    """-> keyword arguments"""
    o = {}

    def maybe(k, *vals):
        if g.random() < .6:
            o[k] = g.choice(vals)
    if algo == "gpl":
        o["savings_method"] = g.choice(["lambda", "pi"])
    elif algo == "ss":
        o["initialize_routes_with"] = g.choice(["farthest", "first", "last", "savings"])
    elif algo == "gps":
        maybe("do_3opt", False)
        maybe("strategy", [[1.0, 0.1], [1.3, .4]], [[2.0, 1.0]], "M4")
    elif algo == "ims":
        o["Lprime"] = g.choice([1, 2, 5])
    elif algo in ("si", "pi"):
        o["emerging_route_count"] = g.choice([1, 2, 3, 5])
        o["initialize_routes_with"] = g.choice(["farthest", "closest", "strain"])
    elif algo == "mj":
        o["strain_criterion"] = g.choice(["proximity_ranking", "min_strain", "clarke_wright", "gaskell",
                                          "augumented_min_strain"])
    elif algo == "mbsa":
        maybe("W", 0.5, 2.0, 10.0)
        o["solve_tsp"] = "fn:verypy.tsp_solvers.tsp_solver_ropt:solve_tsp_3opt"
    elif algo == "cmt":
        o["phase1_seed_selection_method"] = g.choice(["first", "closest", "biggest", "farthest"])
        maybe("phase2_choose_most_associated_route", False)
        maybe("phase2_repeated_association_with_n_routes", None, 2, 3, "K")
        maybe("lambda_multiplier", 1.0, 1.5)
        maybe("mu_multiplier", 0.5, 2.0)
        if not inst["d"] or (o["phase1_seed_selection_method"] == "biggest" and not inst["C"]):
            o["phase1_seed_selection_method"] = "closest"
    elif algo in ("sn", "pn"):
        o["emerging_route_count"] = g.choice([1, 1, 2, 3])
        maybe("initialize_routes_with", "closest", "nearest")
        maybe("add_only_to_end", True)
    elif algo == "ty":
        maybe("only_large_and_close_customer_single_routes", True)
        maybe("try_interchange_with_all_group_customers", False)
        o["select_grouping"] = g.choice(["balanced", "max_demand", "min_penalty"])
    elif algo in ("swp", "gm"):
        o["direction"] = g.choice(["cw", "ccw", "both"])
        o["seed_node"] = g.choice([0, -1, -2] + list(range(1, len(inst["points"]))))
        if algo == "swp":
            maybe("routing_algo", "fn:verypy.tsp_solvers.tsp_solver_ropt:solve_tsp_3opt")
    elif algo == "wh":
        maybe("direction", "cw", "ccw")
        maybe("seed_node", -2, 0, 1, 3, "LEAST_DENSE")
        maybe("full_convergence", False)
    elif algo == "rfcs":
        maybe("tsp_gen_algo", "fn:verypy.tsp_solvers.tsp_solver_ropt:solve_tsp_3opt",
              "fn:verypy.tsp_solvers.tsp_solver_ropt:solve_tsp_2opt")
        maybe("partition_tsp_opt_algo", "fn:verypy.tsp_solvers.tsp_solver_ropt:solve_tsp_3opt")
        maybe("route_tsp_opt_algo", "fn:verypy.tsp_solvers.tsp_solver_ropt:solve_tsp_2opt")
    elif algo == "gap":
        o["seed_method"] = g.choice(["cones", "large_demands"])
        if not inst["C"]:
            o["seed_method"] = "cones"
        maybe("find_optimal_seeds", False)
        maybe("increase_K_on_failure", True)
        maybe("use_adaptive_L_constraint_weights", False)
    elif algo == "ptl":
        maybe("K", 1, 2, 3)
        maybe("relaxe_SCP_solutions", False)
        maybe("required_iterations", 1, 3)
        maybe("min_iterations", 2, 4)
        maybe("restricted_route_ratio", .5, .9)
        maybe("allow_infeasible", False)
        maybe("can_discard_multiple_customers", True, False, 1, 2)
    elif algo == "lr3o":
        maybe("initial_lambda1_C", .05, 1.0)
        maybe("initial_lambda1_L", .05, 1.0)
        maybe("postoptimize_with_3optstar", False)
        maybe("max_concecutive_lamba_incs", 1, 4)
    return o


def value(v):
    if isinstance(v, str) and v.startswith("fn:"):
        m, f = v[3:].split(":")
        return getattr(importlib.import_module(m), f)
    if v == "LEAST_DENSE":
        return importlib.import_module(CH + "wren_holliday_sweep").LEAST_DENSE
    if isinstance(v, list) and v and isinstance(v[0], list):
        return [tuple(x) for x in v]
    return v


def function(algo, opts):
    """-> a callable with the signature of the default configurations"""
    mod, fn = MODS[algo]
    f = getattr(importlib.import_module(CH + mod), fn)
    kw = {k: value(v) for k, v in opts.items()}

    def call(points, D, d, C, L, st, ewt, single, minimize_K):
        a = [points, D, d, C] if algo in POINTS else [D, d, C]
        k = dict(kw, L=L)
        if algo in ("swp", "gm") and k.get("seed_node", 0) > 0:
            k["seed_node"] = 1 + (k["seed_node"] - 1) % (len(D) - 1)     # a customer
        if algo == "gap":
            k["st"] = st
        if algo not in NO_MINK:
            k["minimize_K"] = minimize_K
        return f(*a, **k)
    return call
