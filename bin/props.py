#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

ROOT = plan.ROOT
P = []
F = "src/dynamic/forest.rs"
HY = "src/dynamic/hierarchy.rs"
TR = "src/dynamic/hierarchy/traverse.rs"
FT = "src/dynamic/forest/traverse.rs"
ND = "src/dynamic/forest/node.rs"
STATE = [{"name": "neighbors", "meaning": "links of every node slot: parent, previous sibling (cyclic), next sibling, first child", "where": HY},
         {"name": "data", "meaning": "data of every node slot, none for removed nodes", "where": F}]


def p(pid, title, statement, over, text, tests, files, mech, observe, hook="raw node slots (cfg treena_verif) to make any well-formed forest a pre-state"):
    assert len(title) <= 80, title
    P.append({
        "id": pid, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": tests,
        "anchors": {"files": files, "state": STATE, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook},
    })


FORESTS = "every forest (any shape, any number of trees, any order of creation, with removed nodes) and every choice of the nodes involved"
SAMPLE = "The tests and doc examples run a few fixed trees of about ten nodes; a link that is wrong only for a certain combination of positions (first/middle/last/only child, root, adjacent nodes, moved node above or beside the anchor) is missed."

p("P01", "Links stay mutually consistent after any sequence of operations",
  "After any sequence of creations, insertions, detachments and removals on a forest, the navigation of all live nodes is mutually consistent: x is a child of its parent exactly once, previous and next sibling are inverse, first and last child are the ends of the sibling chain, all siblings have the same parent, and following parents never cycles. Roots have no parent and no siblings, and no live node refers to a removed one.",
  ["histories", "inputs"], "all histories of operations: one operation from every well-formed forest (so histories of any length, within the size bound), and all short histories from scratch",
  "Tests check the shape after a handful of fixed operation sequences; the guarantee is about every sequence.",
  [HY, F], [("connect_triangle, insert, detach, detach_single, SiblingsRange::transplant", HY), ("create_root, create_insert, insert, detach, detach_single, remove*", F)],
  ["Forest::node", "Node::{parent,prev_sibling,next_sibling,first_child,last_child}_id"])
p("P02", "A successful insertion moves exactly one subtree to exactly the named place",
  "When inserting a live node is possible, the node with its whole subtree ends up exactly at the requested place (first or last child of the anchor, or directly before or after it), also when it is already there, and the call succeeds. All other parent, child and sibling-order relations, all node data and the set of live nodes stay the same.",
  ["inputs"], FORESTS + ", each of the four kinds of place, through the forest and through the node proxy",
  SAMPLE, [F, HY, ND, "src/dynamic/anchor.rs"], [("Forest::insert, NodeMut::adopt, NodeMut::try_adopt", F), ("SiblingsRange::transplant, insert", HY), ("AdoptAs::insert_as", "src/dynamic/anchor.rs")],
  ["Forest::insert", "NodeMut::adopt", "NodeMut::try_adopt"])
p("P03", "An impossible insertion is refused with the right reason and changes nothing",
  "Inserting a node under itself or its own descendant, next to itself, or next to a root is refused with the error that names that reason (ancestor-descendant loop, unorderable siblings, siblings without parent), and every other insertion of live nodes is accepted. After a refusal the forest is as before.",
  ["inputs"], FORESTS + ", each of the four kinds of place",
  "Tests try a few impossible insertions on one tree; whether exactly the impossible ones are refused depends on every relative position of the two nodes.",
  [F, HY, ND], [("Forest::insert", F), ("insert, transplant, loop check over ancestors", HY), ("StructureError", F)], ["Forest::insert", "NodeMut::try_adopt"])
p("P04", "A created node appears at the named place and nothing else changes",
  "Creating a node yields a live node that has the given data, no children, and sits exactly at the requested place (a root of its own, or the first/last child of, or directly before/after, the anchor). All other nodes keep their relations and data, and creating beside a root panics and leaves the existing nodes as they were.",
  ["inputs"], FORESTS + ", each kind of place, through the forest and the proxy", SAMPLE, [F, HY, ND],
  [("create_root, create_insert", F), ("create_root, insert", HY), ("NodeMut::create", ND)], ["Forest::create_root", "Forest::create_insert", "NodeMut::create"])
p("P05", "Detaching makes the subtree a separate tree and closes the gap",
  "Detaching a live node makes it the root of a tree of its own with its whole subtree unchanged; its former neighbours become adjacent in the same order. No other relation, no data and no liveness changes, and detaching a root changes nothing.",
  ["inputs"], FORESTS, SAMPLE, [F, HY, ND], [("Forest::detach", F), ("Hierarchy::detach", HY)], ["Forest::detach", "NodeMut::detach"])
p("P06", "Detaching a single node puts its children in its place",
  "Detaching a single live node makes that node a root without children, and its children take its place among its former siblings in the same order with their subtrees unchanged. It is refused exactly when the node is a root with more than one child, with the reason that siblings would have no parent, and then nothing changes.",
  ["inputs"], FORESTS, SAMPLE, [F, HY, ND], [("Forest::detach_single", F), ("Hierarchy::detach_single, SiblingsRange::transplant", HY)], ["Forest::detach_single", "NodeMut::detach_single"])
p("P07", "Removal removes exactly the subtree, and hands over each datum once in postorder",
  "Removing a live node makes exactly the nodes of its subtree dead and leaves every other node alive with its data and relations unchanged apart from closing the gap. The hook gets the data of the removed nodes, each exactly once and children before parents in document order (without a hook they are dropped exactly once), for all variants of removal.",
  ["inputs"], FORESTS + ", all six ways to remove (forest or proxy; plain, with a hook, with a hook and panic safety)", SAMPLE, [F, HY, TR, ND],
  [("remove, remove_hooked, remove_hooked_panic_safe", F), ("SafeModeDepthFirstTraverser", TR), ("force_make_removed, make_removed", HY)], ["Forest::remove*", "NodeMut::remove*"])
p("P09", "Panic-safe removal leaves a consistent forest when the hook panics",
  "If the hook of a panic-safe removal panics at any call, the forest stays consistent: the nodes whose data were already handed over are dead, all other nodes are alive with their data, the nodes outside the subtree keep their relations, and the rest of the subtree keeps the relations among its remaining nodes. The forest can be used normally afterwards, including operations on what is left of the subtree.",
  ["fault_sequences", "inputs"], FORESTS + ", every call of the hook as the one that panics, then any further operation",
  "No test makes a hook panic; the fault can come at every node of every tree shape.", [F, HY, TR], [("remove_hooked_panic_safe", F), ("SafeModeDepthFirstTraverser", TR)], ["Forest::remove_hooked_panic_safe", "NodeMut::remove_hooked_panic_safe"])
p("P10", "An ID is never given out twice, not even after its node was removed",
  "An ID given to a new node is different from all IDs given before by the forest, also of removed nodes, so an old ID never comes to mean another node. When the ID type has no further IDs, creation panics and the existing nodes are unaffected.",
  ["histories", "inputs"], FORESTS + ", then removal and creations in every way; the whole ID space of the smallest ID type",
  "Tests do not create after removing, and never exhaust an ID type.", [F, HY, "src/dynamic/id.rs"], [("create_root", HY), ("NodeIdExt, InternalNodeId::from_usize", "src/dynamic/id.rs")], ["Forest::create_root", "Forest::create_insert", "Forest::clone_local_tree"])
p("P11", "Node IDs of every ID type identify their node",
  "For each of the provided ID types and for user-defined ID types, two IDs of one forest are equal exactly if they are of the same node, order and hash agree with equality, and converting to the internal ID and back gives the same ID. IDs are distinct up to the capacity of the type.",
  ["inputs"], "all values of each ID type, and any two nodes of a tree", "Tests use one ID type and a handful of values.", ["src/dynamic/id.rs"],
  [("impl_int_node_id!", "src/dynamic/id.rs"), ("impl_dynamic_node_id!", "src/dynamic/id.rs")], ["NodeId", "NodeIdU8..NodeIdUsize", "impl_dynamic_node_id!"], "IDs by number (cfg treena_verif)")
p("P12", "Operations on dead or unknown IDs are rejected and change nothing",
  "For an ID whose node has been removed, or that the forest has not given to any node, lookups return nothing, and every operation that needs a live node does not succeed (it panics, or for insertions possibly returns an error). The existing nodes, their relations and data stay as they were, and a dead node does not come back.",
  ["inputs"], FORESTS + ", every removed slot and IDs beyond the created ones, for every operation that takes an ID, with and without debug assertions", "Tests use live IDs nearly everywhere.", [F, HY, ND, TR],
  [("liveness checks: is_alive, neighbors, node", HY), ("the panics documented at each operation", F)], ["all operations of Forest that take an ID"])
p("P13", "Data access reads and writes exactly the node's own data",
  "A live node's data is what was given at creation or last written, through every accessor (by ID, by shared and by mutable proxy). Writing the data of one node changes nothing else.",
  ["inputs"], FORESTS + ", every written value", "Tests write the data of one or two nodes.", [F, ND], [("data, data_mut", F), ("Node::data, NodeMut::{data,data_mut,into_data_ref_mut}", ND)], ["Forest::{data,data_mut}", "Node::data", "NodeMut::data_mut"])
p("P14", "Depth-first traversal is the document order of opens and closes, from both ends",
  "Depth-first traversal of a node yields exactly one open and one close event for every node of its subtree, properly nested and in document order, whatever mix of taking from the front and from the back is used; the two ends meet without loss or repetition, and the exhausted iterator stays exhausted. Peeking at either end tells what the next take from that end gives, without changing anything; the other iterator methods (nth, last, count, folds, searches, size hints, clones) agree.",
  ["inputs", "schedules"], FORESTS + ", every sequence of next, next_back and peeks", "Tests run the traversal forward, and a few fixed mixes on one tree.", [TR, FT], [("DepthFirstTraverser", TR), ("DepthFirstTraverse", FT)], ["Forest::depth_first_traverse", "Node::depth_first_traverse"])
p("P15", "Depth-limited traversal is the depth-first traversal without the deeper nodes",
  "Traversal limited to a maximal depth yields exactly those events of the depth-first traversal whose node is at most that deep below the start, each with its depth, in the same order, whatever mix of front and back is used. No limit gives the whole traversal, and the peeks and the other iterator methods agree with what comes next.",
  ["inputs", "schedules"], FORESTS + ", every limit, every sequence of next, next_back and peeks", "Tests try a few limits on one tree and a few mixes.", [TR, FT], [("ShallowDepthFirstTraverser", TR), ("ShallowDepthFirstTraverse", FT)], ["Forest::shallow_depth_first_traverse"])
p("P16", "Both breadth-first traversals visit each node once, level by level",
  "Breadth-first traversal of a node, allocating or not, yields every node of its subtree exactly once with its depth, ordered by depth and within one depth in document order. Both give the same sequence, the exhausted iterator stays exhausted, and size hints, peeks and the other iterator methods agree with what comes.",
  ["inputs"], FORESTS, "Tests traverse a few fixed trees; the non-allocating traversal walks up and down differently for every shape.", [TR, FT], [("BreadthFirstTraverser", TR), ("AllocatingBreadthFirstTraverser", TR)], ["Forest::breadth_first_traverse", "Forest::allocating_breadth_first_traverse"])
p("P17", "Children and sibling iterators yield exactly the right range, from both ends",
  "The iterators over children, following and preceding siblings (with or without the node itself) yield exactly the nodes of that range in sibling order, whatever mix of taking from the front and the back is used, and then stay exhausted. Peeks and the other iterator methods agree with what comes next.",
  ["inputs", "schedules"], FORESTS + ", every sequence of next, next_back and peeks", "Tests use one or two sibling lists and mostly one direction.", [TR, FT, F], [("SiblingsTraverser", TR), ("Siblings", FT)], ["Forest::{children,following_siblings,preceding_siblings}*"])
p("P18", "Ancestor iterators yield the path to the root",
  "The ancestors of a node are its parent, the parent of that, and so on up to the root, each once, starting with the node itself in the or-self variant, and then the iterator stays exhausted. Peeking tells what comes next, and the other iterator methods agree.",
  ["inputs"], FORESTS, "Tests follow one or two paths.", [TR, FT], [("AncestorsTraverser", TR), ("Ancestors", FT)], ["Forest::ancestors", "Forest::ancestors_or_self"])
p("P19", "Cloning a tree within its forest copies exactly the subtree",
  "Cloning a subtree within its forest creates a new separate tree with the same shape, order and data, made of new nodes only, and leaves all existing nodes and data unchanged. The ID mapping callback gets every pair of source node and its copy exactly once, in document order, and the pairs correspond in shape.",
  ["inputs"], FORESTS, "Tests clone one tree.", [F, TR], [("clone_local_tree, clone_local_tree_with_id_mapping", F)], ["Forest::clone_local_tree*"])
p("P20", "Cloning a tree into another forest copies exactly the subtree",
  "Cloning a subtree from another forest creates in the target forest a new separate tree with the same shape, order and data. The source forest and all existing nodes of the target stay unchanged, and the mapping callback gets every pair of source node and copy exactly once, in document order, and the pairs correspond in shape.",
  ["inputs"], FORESTS + " as the source; small target forests", "Tests clone one tree.", [F, TR], [("clone_foreign_tree, clone_foreign_tree_with_id_mapping", F)], ["Forest::clone_foreign_tree*"])
p("P21", "The chain builder builds the tree that the calls describe",
  "Each call of the chain builder adds exactly one node at the described place relative to the current node (as its last child, or directly after it) and makes it the current node, or moves to the parent; the root stays the root and everything else in the forest is unchanged. Going above the root or adding beside the root is refused as documented, with the current node unchanged.",
  ["programs", "inputs"], "every sequence of builder calls up to a length, and one call from every forest and current node", "Tests and examples build a few fixed trees.", ["src/dynamic/forest/chain_builder.rs", F], [("child, sibling, try_parent, parent", "src/dynamic/forest/chain_builder.rs")], ["ChainTreeBuilder"])
p("P22", "The nested builder builds exactly the described nesting",
  "The tree made by the nested builder has exactly the nodes that were described, in the described order and nesting, also after returning from nested subtrees. The root seen by each closure is the root of its own subtree, and everything else in the forest is unchanged.",
  ["programs"], "every nested description up to a number of items and depth", "Tests and examples build a few fixed trees.", ["src/dynamic/forest/nest_builder.rs", F], [("add_child, create_tree", "src/dynamic/forest/nest_builder.rs")], ["NestTreeBuilder"])
p("P23", "Node proxies agree with the forest on every neighbour",
  "All navigation of a node proxy agrees: the proxies of the parent, siblings and children carry the same IDs as the ID accessors, first-and-last-child comes together, and each is what the forest's structure says. The mutable proxy shows the same node as the shared one.",
  ["inputs"], FORESTS, "Examples call each accessor once or twice.", [ND], [("Node accessors", ND), ("NodeMut accessors", ND)], ["Node", "NodeMut"])
p("P24", "Debug printing shows exactly the subtree, one indented item per node",
  "The debug print of a node shows each node of its subtree exactly once, in document order, starting with the node itself without indent. Each line of a descendant is indented by four columns per level below the printed node: a bar for every level at which more siblings follow, blanks otherwise, and the item marker on the node's first line tells whether it is the last sibling. This holds also for data of several lines, for Display and Debug. A failure of the destination or of the formatting of a datum ends the printing with an error, and nothing is written after it.",
  ["inputs"], FORESTS + "; nodes whose text has one line or several, also with empty lines and a line feed at the end", "Doc examples print a few fixed trees with one-line data.", ["src/dynamic/forest/debug_print.rs", FT], [("IndentWriter, DebugPrint", "src/dynamic/forest/debug_print.rs")], ["Forest::debug_print", "Node::debug_print"])
p("P25", "A cloned forest is equal and independent",
  "Cloning a whole forest (also over another one, with clone_from) gives a forest in which every ID means a node with the same liveness, data and relations. Later changes to one of the two have their usual effect there and do not affect the other, and nodes created later in either get IDs that no node, live or removed, had at the time of cloning.",
  ["inputs", "histories"], FORESTS + ", then one operation on either", "Tests clone a forest at most once.", [F, HY], [("Clone for Forest", F)], ["Forest::clone", "Forest::clone_from"])

p("P26", "A panic of the caller's code while cloning leaves the forests intact",
  "If the clone of a datum or the ID mapping callback panics while a subtree is cloned (within the forest or into another one) or while a whole forest is cloned, the panic is passed on and every node that existed before, in the source and in the destination, keeps its liveness, data and relations. A clone whose ID the callback got is alive with its data or not alive in any respect. The forests can be used normally afterwards: nodes created later get new IDs, their own data and the right place.",
  ["fault_sequences", "inputs"], FORESTS + ", every datum or call of the callback as the one that panics, then further operations",
  "No test makes a clone or a callback panic; the fault can come at every node of every tree shape.", [F, HY], [("clone_local_tree*, clone_foreign_tree*, create_root, create_insert", F), ("Clone for Forest", F)],
  ["Forest::clone_local_tree*", "Forest::clone_foreign_tree*", "Forest::clone"])
p("P27", "Panics for violated preconditions blame the caller, as documented",
  "Whenever the crate panics because of what the caller did (an operation on a node that is not alive or that the forest never had, creating a sibling of a root, adopting a node that cannot be adopted, running out of node IDs, a chain builder step that cannot be made), the panic message begins with `[precondition]`; messages that begin with `[consistency]` are kept for bugs of the crate itself and never appear for a mistake of the caller.",
  ["inputs", "programs"], FORESTS + ", every dead or unknown ID, every refused pair of nodes, and sequences of chain builder calls", "Tests check at most that something panics, not what it says, and for few IDs.", [F, HY, ND, "README.md"], [("expect and panic messages of the precondition checks", HY), ("chain builder", "src/dynamic/forest/chain_builder.rs")], ["panic messages of all operations that take an ID"])
p("P28", "The plain breadth-first traversal never allocates",
  "Creating the breadth-first traversal that is documented not to heap-allocate (of a forest or of a node proxy) and running it to its end makes no heap allocation, whatever the shape of the tree, while visiting every node.",
  ["inputs"], FORESTS, "No test counts allocations.", [TR, FT], [("BreadthFirstTraverser", TR), ("BreadthFirstTraverse", FT)], ["the global allocator during Forest::breadth_first_traverse, Node::breadth_first_traverse and Iterator::next"])

TECH = "symbolic execution of the compiled code (LLVM IR from rustc) with bit-precise SAT solving, against a reference model"


def main():
    by = {x["id"]: x for x in P}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
    checks = []
    for pid in sorted(plan.PROPS):
        assert pid in by, pid
        big = [plan.bound(h) for h in plan.PROPS[pid]["quick"]]
        seen = []
        for b in big:
            if b not in seen:
                seen.append(b)
        checks.append({
            "property": pid,
            "quick_cmd": "python3 bin/check.py %s quick" % pid,
            "thorough_cmd": "python3 bin/check.py %s thorough" % pid,
            "evidence_file": "evidence/%s.json" % pid,
            "technique": TECH,
            "level": "model_checking",
            "level_note": "Holds for all inputs within the bounds (quick: %s). Nothing is claimed outside them. Trusted: rustc up to LLVM IR, the executor, the SAT solver; models are replayed natively, counterexamples are reported only if they reproduce on the real code." % "; ".join(seen),
        })
    m = {
        "version": 1,
        "setup_cmd": "python3 bin/setup.py",
        "hooks": {
            "guard": "cfg treena_verif",
            "enable": "RUSTFLAGS='--cfg treena_verif' (set by bin/check.py)",
            "source_commits": ["d712fb0"],
        },
        "checks": checks,
        "not_applicable": [{"property": x["id"], "reason": NA[x["id"]]} for x in P if x["id"] not in plan.PROPS],
        "notes": "Solver-based checking of the compiled code; see DESIGN.md. known_findings.json lists the recorded defects.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


NA = {}

if __name__ == "__main__":
    main()
