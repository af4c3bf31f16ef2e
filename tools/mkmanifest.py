#!/usr/bin/env python3
"""writes MANIFEST.json and known_findings.json (run by hand when they change)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "seeded search over a sampled space: evidence, not proof; bounds and seams in DESIGN.md"
T = {
 "P01": "deterministic simulation: interrupt injected at seeded source-line/bytecode instants of each solve, plan judged by an independent oracle",
 "P02": "deterministic simulation: interrupt injected at seeded instants and in MIP solver calls, how and how soon the solve ends is judged",
 "P03": "deterministic simulation: seeded histories and interleavings of simulated caller threads, undisturbed solves judged by an independent oracle within a step budget",
 "P04": "deterministic simulation: differential runs with every hidden source of nondeterminism (RNG, clock, ids, hash seed, thread schedule, history) behind a seam",
 "P05": "deterministic simulation: faults and interrupts at seeded instants, process state and caller data compared before/after",
 "P06": "deterministic simulation: command line runner on a simulated batch with seeded read faults, failing algorithms and interrupts",
 "P07": "deterministic simulation: runner reports under seeded outcomes, interrupts and faults compared with an independent recalculation",
 "P08": "deterministic simulation: TSP solver wrappers against a simulated external process with seeded misbehaviour",
 "P09": "deterministic simulation: simulated process table and fault-injected file operations, leak check after each call",
 "P10": "deterministic simulation: reader over a storage seam with seeded truncation, short reads and I/O errors, compared with the complete problem",
 "P11": "deterministic simulation: writer over a storage seam with seeded full disk, short writes and I/O errors, read back and compared",
 "P12": "deterministic simulation: seeded schedules of move operators with cuts after any number of moves, reference bookkeeping after every move",
 "P13": "deterministic simulation: seeded sequences of start outcomes and interrupts against a small reference model of best-so-far",
 "P14": "deterministic simulation: directory listing order behind a seam, seeded permutations against a reference list",
 "P15": "deterministic simulation: seeded fault plans over the MIP solver calls of a run",
 "P16": "deterministic simulation: failures injected at seeded instants of a solve, followed by further solves in the same process",
 "P17": "deterministic simulation: seeded histories of complete and interrupted searches, result compared with reference neighbourhoods",
}
FIXED = [
 ("P02", "1214128", "multi-start heuristics swallowed an interrupt that carried no plan"),
 ("P01", "c0df2fc", "interrupted savings/nearest neighbor/CMT heuristics handed over incomplete or infeasible plans"),
 ("P01", "6c9e90c", "interrupted insertion heuristics handed over infeasible plans"),
 ("P04", "6c9e90c", "ties of insertion heuristics were broken by memory addresses"),
 ("P01", "c635909", "interrupted route-first-cluster-second split with a half filled matrix"),
 ("P01", "9917a7a", "Wren-Holliday interrupted in the middle of a move lost or duplicated customers"),
 ("P05", "54bb130", "Gillet-Miller modified the distance matrix of the caller"),
 ("P03", "8a3ce4e", "lr3opt penalty became infinite/NaN under a route cost constraint"),
 ("P05", "8385d13", "Gurobi based solvers left the SIGINT handler changed after a failure"),
 ("P03", "8385d13", "MIP based heuristics failed outside the main thread; mbsa with odd/empty matchings; gap corrective action"),
 ("P15", "8385d13", "solver status was not handled in gap and mbsa"),
 ("P01", "0894006", "interrupted petal heuristic handed over incomplete plans"),
 ("P02", "0894006", "petal heuristic swallowed the interrupt"),
 ("P12", "c4d4cd1", "2-opt* reported wrong cost and demand of the new routes"),
 ("P08", "857b92f", "LKH and ACOTSP wrappers accepted truncated or wrong tours, and wrong costs"),
 ("P09", "857b92f", "LKH and ACOTSP wrappers left temporary files and processes behind on failure"),
 ("P10", "2ddd9e2", "truncated sections were accepted with missing data, depot permutation was wrong"),
 ("P13", "2ddd9e2", "a start that found nothing lost the results of the others"),
 ("P14", "2ddd9e2", "the list of problem files depended on the listing order and repeated files"),
 ("P06", "8a67138", "an unreadable file or a failing algorithm ended the whole batch; an interrupt lost the results"),
 ("P07", "8a67138", "the runner reported numbers of another plan, or infeasible plans as feasible"),
 ("P03", "811d2ff", "petal heuristic returned infeasible plans, or did not end"),
 ("P15", "483e2aa", "numeric trouble of the MIP solver made the petal heuristic return an incomplete plan"),
 ("P03", "b82a759", "2-opt cycled for ever with large distances (tolerance below the rounding error)"),
 ("P03", "3a748ca", "nearest neighbor and gap heuristics crashed with nodes at zero distance of each other"),
 ("P03", "12a446b", "petal heuristic exceeded the route cost limit on routes from which a customer was removed"),
 ("P03", "a6b353b", "Wren-Holliday repeated the same moves for ever"),
 ("P03", "03de995", "one point and chain moves exceeded the cost limit of the route a node was removed from"),
 ("P12", "03de995", "one point and chain moves exceeded the cost limit of the route a node was removed from"),
 ("P06", "eb234c5", "results of problem files with the same name overwrote each other in the report"),
 ("P07", "cc26bce", "the service time was rounded when an odd or fractional one was added to integer distances"),
 ("P11", "c2bbaf3", "reading a solution (.opt) file the library wrote failed, and the counting of its routes was wrong"),
 ("P11", "9764162", "written problem files with selected nodes, or without a capacity, were those of another problem"),
 ("P14", "69351ab", "folders with glob characters or non-ASCII digits in their names were skipped or crashed the listing"),
 ("P10", "66a771a", "a problem file cut within SVC_TIME_SECTION was read as one with another service time"),
 ("P13", "1b9ba61", "an interrupted parallel nearest neighbor search lost the solutions of its other starts"),
 ("P09", "35b51a0", "a temporary file of LKH that could not be removed kept the others from being removed"),
 ("P07", "9c4a803", "the runner of TSP solvers (tsp_cli) failed with an AssertionError after a correct solve because of rounding differences (7 customers, real distances)"),
 ("P06", "6d5120a", "in the runner of individual heuristics (shared_cli.cli) an unreadable file or a failing run ended the batch, the files after it were not solved; and a random problem without a plan failed"),
 ("P10", "4b682ea", "a comment (or name) that mentions a distance, vehicles or a service time was read as that constraint"),
 ("P02", "8a25d4b", "an interrupt of the matching based savings algorithm turned into a TypeError without demands"),
 ("P03", "fca3304", "the single iteration Wren-Holliday sweep crashed on a problem with only one customer"),
 ("P03", "1d2c151", "Tyagi nearest neighbor crashed on a problem with only one customer"),
 ("P03", "5cf30af", "suppression savings returned no plan for a problem with only one customer"),
 ("P03", "0fddbed", "cheapest insertion failed with an IndexError if there were more emerging routes than customers"),
 ("P03", "77388f0", "nearest neighbor with 'nearest' seeds failed with a TypeError or UnboundLocalError when the nodes ran out"),
 ("P03", "f375b45", "sequential savings initialized with savings failed with a ValueError with one customer"),
 ("P03", "f9f5f65", "the second trial of the large demand seeds of GAP failed with an IndexError"),
    ("P03", "ca2af06", "coordinates given as a numpy array (documented for petal) were rejected with a ValueError"),
 ("P10", "1ab32cb", "nodes of a problem file that are not listed in order got the coordinates and demands of other nodes"),
]
EXTRA = os.path.join(V, "tools", "extra.json")
NA = [
 ("N01 the validators accept exactly the feasible plans", "validate_solution_feasibility, check_solution_statistics, objf, sol2routes and recalculate_objective are pure functions of their arguments: no schedule, clock, fault or interleaving for a simulation to decide (they are compared with an independent recalculation wherever P07 runs them)"),
 ("N02 coordinate distances follow the TSPLIB definitions", "EUC_2D, CEIL_2D, GEO, ATT etc. distance formulas in cvrp_io.calculate_D are pure functions of the coordinates"),
]
def main():
    checks = []
    for p in sorted(T):
        if not os.path.exists(os.path.join(V, "checks", p.lower() + ".py")):
            continue
        checks.append(dict(property=p, quick_cmd="./check.py %s --tier quick" % p,
            thorough_cmd="./check.py %s --tier thorough" % p, technique=T[p],
            level="exploration", level_note=NOTE, evidence_file="evidence/%s.json" % p))
    have = {c["property"] for c in checks}
    na = [dict(property=a.split()[0], reason=a[4:] + ": " + b) for a, b in NA]
    na += [dict(property=p, reason="check under construction") for p in sorted(T) if p not in have]
    m = dict(version=1, setup_cmd="./check.py SETUP", hooks=dict(guard="none",
             enable="no hooks: the seams are patched from outside at run time", source_commits=[]),
             checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    k = json.load(open(os.path.join(V, "known_findings.json")))
    k["fixed"] = ["fixed: property=%s %s %s" % f for f in FIXED]
    json.dump(k, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
main()
