#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run from /verif)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "sa"))
import checks, importlib
importlib.import_module("allchecks")

C = "dynetworkx/classes/"
IG, IDG, PG, PDG = C + "intervalgraph.py", C + "intervaldigraph.py", C + "impulsegraph.py", C + "impulsedigraph.py"
IT, SG, SDG, MO = C + "intervaltree.py", C + "snapshotgraph.py", C + "snapshotdigraph.py", "dynetworkx/algorithms/count_temporal_motif.py"
FOUR = [IG, IDG, PG, PDG]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": list(observe), "hook_needed": None}})


prop("C01", "Window queries on interval graphs select exactly the active edges",
     "In an interval graph or digraph, every query that takes a time window [begin, end) - listing edges by any combination of endpoints, edge "
     "and node existence, node listing and counting, node degree and subgraph export - selects exactly the edges whose interval overlaps the "
     "window or starts at its begin. A missing bound leaves that side open; a bound of 0 is a bound like any other.",
     ["inputs", "histories"], "for all edges, all windows begin <= end, open or closed, relative to any edge, on every query route",
     "The tests sample a few positive time values on one or two routes; boundary coincidences, 0, negative times and open bounds on each of the four "
     "internal lookup routes and in each sibling class are not reached.",
     [IG, IDG, IT], [("edges/has_edge/has_node/nodes/degree/to_subgraph membership tests", IG), ("digraph overrides", IDG), ("tree slice/query", IT)],
     observe=["edges", "has_edge", "has_node", "nodes", "number_of_nodes", "degree", "to_subgraph"])
prop("C02", "Window queries on impulse graphs select exactly the timestamps inside the window",
     "In an impulse graph or digraph, every query that takes a time window selects exactly the edges whose timestamp lies in the window, where the "
     "inclusive flags decide whether each bound belongs to it; when no flags are given, begin belongs to the window and end does not (for has_edge and remove_edge of the impulse digraph both do). A window whose bounds are equal selects exactly that instant. A missing bound leaves "
     "that side open and 0 is a bound like any other.",
     ["inputs", "histories"], "for all timestamps, windows, inclusive settings and query routes",
     "Tests use a handful of timestamps, rarely on a bound, and rarely with non-default inclusive flags; four lookup routes times four flag settings "
     "times the boundary cases are not enumerated.",
     [PG, PDG], [("edges routes and per-query filters", PG), ("digraph overrides", PDG)],
     observe=["edges", "has_edge", "has_node", "nodes", "number_of_nodes", "degree", "to_subgraph"])
prop("C03", "The interval index loses, invents and reorders nothing",
     "Whatever sequence of insertions and removals builds an interval graph, its interval index answers every overlap query with exactly the stored "
     "intervals that meet it. Rebalancing, inserting and deleting keep every other interval, the search order and the subtree maxima the lookup prunes by.",
     ["histories", "inputs"], "for all insertion/removal histories, tree shapes and query windows",
     "Tests build a few small trees in one order; rotations at depth, deletion of nodes with two children and pruning on stale maxima need particular shapes.",
     [IT], [("insert/discard/rotations/updateMax/query", IT)], [("root", "binary search tree of intervals", IT), ("max", "largest end in the subtree", IT)],
     observe=["IntervalTree.slice", "edges(begin, end)"])
prop("C04", "Inserting leaves exactly the old graph plus what was inserted",
     "After inserting edges or nodes into any of the four timed graph classes, every query reports exactly the previous content plus the inserted edges "
     "(endpoints included) and nodes. Inserting what is already there - also with the ends of an undirected edge swapped - merges the attributes and "
     "creates no second copy.",
     ["histories", "inputs"], "for all graphs, edges (parallel, repeated, swapped, self-loops) and attributes",
     "Tests insert a few distinct edges and look at one query; agreement of every index after repeated/swapped/self-loop insertion is not checked.",
     FOUR, [("add_edge/add_node/add_edges_from/add_nodes_from", f) for f in FOUR], [("adjacency, node and time indexes", "must describe one edge set", IG)],
     observe=["edges", "nodes", "has_edge", "has_node", "len"])
prop("C05", "Removing leaves exactly the old graph minus what was removed",
     "Removing an edge or a node, wholly or within a time window or by exact interval, removes exactly the matching edges from every view of the graph and keeps "
     "every other edge, node and attribute; a node stays as long as it has an edge left (or, for edge removal, always). The graph stays usable: inserting again after "
     "removal behaves as on a graph that never held the edge.",
     ["histories", "inputs"], "for all graphs, windows relative to the edge, exact/overlapping matching, parallel and reversed edges, self-loops",
     "Tests remove one edge and look at one query; stale entries in other indexes only show through other queries or later operations.",
     FOUR, [("remove_edge/remove_node/__remove_iedge", f) for f in FOUR], [("adjacency, node and time indexes", "must describe one edge set", IG)],
     observe=["edges", "nodes", "has_edge", "has_node", "interval"])
prop("C06", "Endpoint arguments of queries mean the same on every route",
     "Asking for edges by first and/or second endpoint yields exactly the edges that connect the given nodes - in the stored direction for directed graphs, in either "
     "for undirected ones - each once, with its own stored attributes when data is requested. An endpoint may be a single node of any kind "
     "(strings and tuples included) or a list/set of nodes; unknown nodes match nothing.",
     ["inputs", "configurations"], "for all endpoint argument shapes, node kinds, parallel/reversed/self-loop edges, with and without a window",
     "Tests use single integer nodes; lists, tuple/string nodes, unknown nodes and both endpoints at once are not combined with windows.",
     FOUR, [("edges argument dispatch", f) for f in FOUR], observe=["edges", "has_edge", "degree"])
prop("C07", "Queries, exports and updates are silent and queries change nothing",
     "No query, export or save changes the graph it is asked about, nor the lists, sets and dictionaries the caller passed in; asking twice gives the same answer. "
     "No query or update prints to standard output.",
     ["histories", "inputs"], "for all graphs and arguments of all public read operations",
     "Tests never compare the graph before and after a query nor capture output of successful operations.",
     FOUR + [SG, SDG], [("every public query of the six classes", IG)], observe=["all queries", "stdout"])
prop("C08", "Exported graphs hold exactly the selected edges with the requested data",
     "Exporting a window as a networkx graph yields a graph of the matching kind (directed/undirected, simple/multi) whose nodes are the endpoints of the selected edges "
     "and whose edges are the selected edges - one per timed edge in a multigraph, one per pair otherwise. Edge attributes, time stamps and node attributes appear "
     "exactly when asked for, for every combination of the flags; a requested time stamp takes the place of an edge attribute of the same name.",
     ["inputs", "configurations"], "for all 16 flag combinations, windows, parallel and reversed edges, in four classes",
     "Tests cover a few flag combinations on one class each.", FOUR, [("to_subgraph/to_networkx_graph", f) for f in FOUR], observe=["to_subgraph", "to_networkx_graph"])
prop("C09", "Snapshots by number or length partition the graph's whole time span",
     "Splitting a graph into snapshots yields consecutive windows of equal length that start at the first event and reach through the last; snapshot i holds exactly the edges "
     "active in its window, the final instant included in the last one. Number and length descriptions of the same grid agree, and "
     "impossible requests raise NetworkXError.",
     ["inputs", "configurations"], "for all graphs, numbers/lengths of snapshots, flags; edges at every position relative to the grid",
     "Tests check the number of snapshots and a few members, not edges exactly on snapshot boundaries.",
     FOUR, [("to_snapshots", f) for f in FOUR], observe=["to_snapshots"])
prop("C10", "Conversion to a snapshot graph keeps every activity period",
     "Converting a timed graph to a snapshot graph yields one snapshot per period between consecutive event times (one per distinct instant for impulses), and each holds exactly "
     "the edges active in it, with the requested data.",
     ["inputs"], "for all overlapping, nested, touching, disjoint and zero-length edges",
     "Tests convert one small graph and count snapshots.", FOUR + [SG], [("to_snapshot_graph", f) for f in FOUR], observe=["to_snapshot_graph"])
prop("C11", "Importing keeps every edge, time and attribute of the source",
     "Building a timed graph from a networkx graph with time attributes, or from a snapshot graph, yields a graph of the class it was called on with exactly the source's timed edges and "
     "remaining attributes, also under custom attribute names; an edge present in consecutive snapshots becomes one interval per unbroken run. The source is not changed. "
     "(Edge attributes are passed to add_edge as keywords, so names of its parameters are not usable as attribute names.)",
     ["inputs", "configurations"], "for all source graph kinds, attribute names, presence patterns over snapshots",
     "Tests import a single graph kind with default names and one presence pattern.",
     FOUR, [("from_networkx_graph/from_snapshot_graph", f) for f in FOUR], observe=["from_networkx_graph", "from_snapshot_graph"])
prop("C12", "Saved text files load back; documented file variants mean what they say",
     "Saving a timed graph and loading it with the same delimiter restores its edges, times and attributes; comments, blank lines, column orders, durations and merging behave as documented. "
     "Malformed values, orders and delimiters are rejected with the documented exception, and snapshot matrices keep every edge, weight and interval, whichever interval mark comes first and whatever blanks separate the values.",
     ["inputs", "configurations"], "for all delimiters, column orders, comment placements, attribute sets, merge gaps",
     "Tests round-trip one file per class with the default delimiter.", FOUR + [SG], [("save_to_txt/load_from_txt", f) for f in FOUR + [SG]],
     observe=["save_to_txt", "load_from_txt"])
prop("C13", "Snapshot selection by time or index picks exactly the requested snapshots",
     "Every operation of a snapshot graph that takes an index list or a time window applies to exactly the selected snapshots, in time order for windows and in the given order for "
     "indices; with neither it applies to all. 0 and empty lists are selections like any other, and combining indices with times is rejected.",
     ["inputs", "configurations"], "for all snapshot intervals, windows and index lists, for all selecting operations",
     "Tests select with a few positive bounds; touching intervals, instants, 0, and open bounds are not covered for each of the selecting operations.",
     [SG, SDG], [("_get and the selecting methods", SG)], observe=["get", "order", "size", "degree", "subgraph", "has_node", "number_of_nodes", "compute_network_statistic"])
prop("C14", "Updating a time window of a snapshot graph touches exactly that window",
     "Adding nodes or edges to a time window of a snapshot graph cuts the snapshots exactly at the window's bounds, and every piece inside the window - and none outside - "
     "receives the update once. Pieces are independent copies, so the parts outside the window keep their content.",
     ["inputs", "histories"], "for all snapshot intervals and update windows relative to each other",
     "Tests update with one window strictly inside one snapshot.", [SG], [("_split and add_nodes_from/add_edges_from", SG)], observe=["add_nodes_from", "add_edges_from"])
prop("C15", "Invalid requests are rejected before anything changes",
     "Reversed windows or intervals, exact matching without an interval and malformed edge tuples raise NetworkXError (or the documented exception) on every operation that documents it, also when a "
     "bound is 0, and leave the graph as it was.",
     ["inputs"], "for all reversed bound pairs relative to 0 and all documented invalid argument shapes",
     "Tests check a single reversed window with positive bounds on few operations and never look at the graph afterwards.",
     FOUR, [("argument validation", f) for f in FOUR], observe=["edges", "add_edge", "has_edge", "remove_edge", "degree"])
prop("C16", "Degree answers agree with the edges",
     "The degree of a node in a window is the number of its edges in it (split into incoming and outgoing in digraphs), the mean degree is the average over the nodes present, and the degree "
     "change list of an interval graph visits every event of the node in time order, ending each instant with the number of edges active from then on; that of an impulse graph gives each "
     "instant with its number of edges.",
     ["inputs", "histories"], "for all graphs, windows and degree variants",
     "Tests compare single values on one graph; simultaneous events, directed variants and windows are not combined.",
     FOUR, [("degree/in_degree/out_degree", f) for f in FOUR], observe=["degree", "in_degree", "out_degree"])
prop("C17", "A trained lookup model never changes an answer",
     "Whichever internal lookup route a trained predictive model chooses - or when there is none - edge queries return the same edges and data. "
     "Training a model only reads the graph.",
     ["configurations", "inputs"], "for all model predictions, endpoint arguments, windows and inclusive settings",
     "Tests run with untrained models or with one trained model whose choice they do not control.",
     FOUR, [("predictive model route in edges", f) for f in FOUR], observe=["edges"])
prop("C18", "Motif counting honours the window, order and node identity",
     "Counting a connected temporal motif (in a graph whose nodes can be compared) counts the sequences of edges at strictly increasing times whose last is at most the time limit after the first (limit included). Edges at the same instant never "
     "follow one another, equal motif nodes stand for equal graph nodes and different ones for different graph nodes, whatever other edges, repetitions or self-loops there are. Only impulse "
     "digraphs are accepted; any other graph raises TypeError.",
     ["inputs"], "for all edge sequences, motifs and time limits",
     "Tests count motifs in one fixed graph without ties at the limit; sliding the window needs particular spacings of many edges.",
     [MO], [("count_temporal_motif and helpers", MO)], observe=["count_temporal_motif"])
prop("C19", "Attributes of different edges, nodes and callers are independent",
     "Every edge and node has its own attribute dictionary: changing one, or re-inserting one edge with new attributes, changes no other edge or node and no dictionary the caller passed in - also "
     "when many were inserted in one call or imported from another graph.",
     ["histories", "inputs"], "for all bulk insertions, imports, repeated insertions and later attribute changes",
     "Tests never change an attribute after a bulk insertion or import.", FOUR + [SG], [("add_edge/add_edges_from/add_nodes_from/importers", f) for f in FOUR], observe=["edges(data)", "nodes(data)"])
prop("C20", "Unique timestamps are exactly the event times in the window",
     "The unique timestamps of a timed graph are the distinct begin/end times (instants, for impulses) that occur within the given bounds, ascending, each once; bounds of 0 are bounds and an empty "
     "graph has none.",
     ["inputs"], "for all graphs and bounds", "Tests query one graph with default bounds.", FOUR, [("unique timestamp queries", f) for f in FOUR], observe=["get_unique_timestamps"])
prop("C21", "The graph's interval is the exact span of its edges",
     "A timed graph's interval runs from the earliest begin to the latest end of the edges it holds at that moment, also after removals, for edges at any time including 0 and negative times.",
     ["histories", "inputs"], "for all insertion and removal histories", "Tests look at the interval after a few insertions only.", FOUR + [IT], [("interval and the index bounds", f) for f in FOUR], observe=["interval"])
prop("C22", "Inserting snapshots stores exactly the given graph at the given time",
     "Inserting a snapshot by interval or instant stores exactly the given graph (or one built from the given edges, of the right kind) there, keeps all others, and iteration follows time order. "
     "Missing, mixed or reversed times raise ValueError without a change.",
     ["inputs", "histories"], "for all existing snapshots and new times, 0 included", "Tests insert ascending positive times.", [SG, SDG], [("insert/add_snapshot", SG), ("digraph variant", SDG)],
     observe=["insert", "add_snapshot", "iteration", "len"])
prop("C23", "The results of motif counting agree with each other",
     "The three results of counting a temporal motif agree: the total is the sum of the counts of the single instances, and the participation table has a row for every node of an instance, a column "
     "for every motif node in order of appearance, and in each cell how often that node was counted in that position.",
     ["inputs"], "for all edge sequences, motifs and time limits", "Tests look at the total and the dictionary of one graph.", [MO], [("count_temporal_motif", MO)], observe=["count_temporal_motif"])
prop("C24", "Training the lookup model succeeds on every graph",
     "After importing or loading any graph, the predictive lookup model is trained without error and within a time proportional to the requested samples.",
     ["inputs"], "for all graphs and sample sizes", "Tests train on small fixed graphs.", FOUR, [("load_predictive_models", f) for f in FOUR], observe=["load_predictive_models"])
prop("C25", "The interval index stays balanced",
     "Lookups in the interval index visit a number of entries logarithmic in the number of intervals plus the number of answers, for every insertion order.",
     ["histories"], "for all insertion orders", "Tests measure no lookup cost.", [IT], [("balancing in insert", IT)], observe=["IntervalTree.query"])
prop("C26", "A graph knows its nodes, their data, its attributes and its name",
     "The length of a timed graph is the number of its nodes, `in` and has_node tell whether a node is in it, and node listings - plain, with all data, or with one attribute and a default, over the whole "
     "graph or a time window - report each node once with its own attributes. Attributes given to the constructor of any graph class and a name set later are kept, and str() is the name. The length of a "
     "snapshot graph is the number of its snapshots, and `in` tells whether a graph is one of them.",
     ["inputs", "histories"], "for all graphs, node labels (0, strings, tuples, isolated nodes), attribute values (0, None, empty), windows and data arguments",
     "Tests look at a few connected nodes with truthy attributes.", FOUR + [SG, SDG], [("nodes/has_node/number_of_nodes/len/in/name", f) for f in FOUR] + [("len/in/name", SG)],
     observe=["nodes", "len", "in", "has_node", "number_of_nodes", "name", "str"])

NA = {
    "C24": "depends on the fitted scikit-learn/numpy model and on random sampling at run time; no static rule decides it (that a model's choice changes no answer is C17)",
    "C25": "a bound on runtime tree depth over all insertion histories; the current balancing criterion is heuristic and no static argument in reach bounds the depth",
}
NOTE = ("Holds for every case of the finite abstract domain named in the evidence (order types of the times relative to each other and to 0, None-ness, flags, identity patterns of nodes) under the "
        "container/networkx models in sa/ev.py; more simultaneous edges than in the enumerated graphs are covered only through the per-edge shape of the summaries. Constructs outside the supported "
        "fragment are counted as undecided and stay quiet.")
NOTES = {
    "C03": "Each tree operation is interpreted over abstract heaps with opaque subtrees (contracts stand for recursive calls), so it holds for trees of any size as far as the enumerated local shapes go; "
           "unrecognised code is undecided and stays quiet.",
    "C18": "Decided over order types of time differences relative to the limit for up to six edges on up to four nodes with opaque labels; longer runs are covered only as far as the window code treats edges alike.",
    "C23": "As C18; the table is read through a model of the pandas operations used, other operations leave the table undecided.",
}
TECH = {
    "C03": "static: shape analysis of the tree operations over abstract heaps with opaque subtrees",
    "C18": "static: abstract interpretation of the motif module over order types of time differences and opaque node labels",
    "C23": "static: abstract interpretation of the motif module over order types of time differences and opaque node labels",
}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p) + "\n")
    ids = [p["id"] for p in P]
    man = {"version": 1, "setup_cmd": "python3 -c 'import ast, sys; assert sys.version_info >= (3, 8)'", "checks": [], "not_applicable": [],
           "notes": "Every check parses /repo's current sources (python3 standard library only; nothing of /repo is imported or executed)."}
    for i in ids:
        if i in checks.CHECKS:
            man["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                                  "evidence_file": f"evidence/{i}.json",
                                  "technique": TECH.get(i, "static: guarded-summary dataflow, abstract interpretation over order types, against a specification"),
                                  "level": "other", "level_note": NOTES.get(i, NOTE)})
        else:
            man["not_applicable"].append({"property": i, "reason": NA.get(i, "no check of this family is built for it yet")})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
