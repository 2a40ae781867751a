"""Regenerates /verif/properties.jsonl (the text of every property lives here)."""
import json, os
P = []
MP, NS, AL, LT, MO = ("treebeard/mp_tree.py", "treebeard/ns_tree.py", "treebeard/al_tree.py",
                      "treebeard/ltree/__init__.py", "treebeard/models.py")

def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or ["public manager / node API return values", "rows of the tree table"],
                               hook_needed=None)))

FIX = ("The suite replays a handful of fixed trees (one ten-node fixture with freshly packed positions); it never varies "
       "the stored ordering keys (gaps, carries, nearly full levels), so it samples a few points of an unbounded space.")

# ---------------------------------------------------------------- materialized path
p("M01", "Materialized path: insertions build exactly the requested tree",
  "Adding a root, a child or a sibling to a valid materialized-path tree puts the new node exactly at the requested place and leaves "
  "every other node's parent, relative order and data unchanged. Afterwards stored paths, depths and child counts are all consistent with that tree.",
  ["inputs", "histories"], "every valid stored tree (any gaps between positions), every target node, every relative position", FIX,
  [MP], [("add_root/add_child/add_sibling", MP + ": MP_NodeManager"), ("sibling shifting", MP + ": _reorder_nodes_before_add_or_move"), ("path step arithmetic", MP + ": _inc_path/_get_path")])
p("M02", "Materialized path: a move relocates exactly the requested branch",
  "Moving a node relative to any target outside its own branch makes that node, with its whole branch intact, occupy exactly the requested place. "
  "No other node changes parent, relative order or data, and stored paths, depths and child counts stay consistent with the tree.",
  ["inputs", "histories"], "every valid stored tree (any gaps), every node and target, every relative position", FIX,
  [MP], [("move", MP + ": MP_NodeManager.move"), ("shifting and temporary relocation", MP + ": _reorder_nodes_before_add_or_move"), ("branch rewrite", MP + ": _set_newpath_in_branches")])
p("M03", "Materialized path: deletion removes whole branches and nothing else",
  "Deleting a node or any queryset of nodes removes exactly those nodes and all of their descendants. Every remaining node keeps its place, "
  "order and data, and child counts stay exact; the number reported as deleted is the number of nodes removed.",
  ["inputs", "histories"], "every valid stored tree, every subset of nodes selected for deletion (nested or not)", FIX,
  [MP], [("queryset delete", MP + ": MP_NodeQuerySet.delete")])
p("M04", "Materialized path: sorted trees stay sorted under API operations",
  "In a tree with a declared node ordering, whose siblings are all in that order (except perhaps a node about to be moved, whose data was edited), adding or moving a node leaves every sibling group in that order. "
  "The node gets the requested parent and all other nodes keep parent and relative order; stored paths, depths and counts stay consistent.",
  ["inputs", "histories"], "every valid sorted tree, every key values (ties, ascending and descending, several keys), every target and sorted position", FIX,
  [MP, MO], [("sorted position", MO + ": get_sorted_pos_queryset"), ("sorted insert/move", MP + ": add_sibling/move")])
p("M05", "Materialized path: every navigation query reports the true tree",
  "On a valid materialized-path tree, children, siblings, ancestors, parent, root, descendants (with any depth limit), neighbours, first/last queries, "
  "descendant counts, leaf/root/relationship predicates and whole-tree listings all return exactly the nodes, in exactly the depth-first or sibling order, that the tree defines.",
  ["inputs"], "every valid stored tree (any gaps), every node and pair of nodes, every depth limit", FIX,
  [MP, MO], [("navigation", MP + ": get_* methods"), ("predicates", MP + ": MP_Node.is_*")])
p("M06", "Materialized path: the consistency checker reports exactly the broken nodes",
  "The materialized-path problem finder reports nothing on a consistent tree, and on an inconsistent one reports each node with illegal characters, a wrong path length, "
  "a missing parent, a wrong depth or a wrong child count in the list for the first of those faults it has. Limited to a branch, it judges exactly the nodes of that branch.",
  ["inputs", "fault_sequences"], "every table content: arbitrary paths, depths and child counts", "Tests feed two hand-corrupted fixtures; the guarantee is over arbitrary corruption.",
  [MP], [("find_problems", MP + ": MP_NodeManager.find_problems")])
p("M07", "Materialized path: repair restores depths, counts, gaps and ordering",
  "After a repair, every node's depth and child count agree with its path whatever they were before, and no path, parent or data is changed by the default repair. "
  "A path repair additionally renumbers every sibling group without gaps, in its previous order or in the declared node ordering, keeping every node's parent.",
  ["inputs", "fault_sequences"], "every tree with arbitrary depth/child count corruption and arbitrary gaps or mis-sorted siblings", "Tests repair two fixtures; arbitrary corruption and gap patterns are out of their reach.",
  [MP], [("fix_tree", MP + ": fix_tree/_fix_numchild/_rewrite_node_path")])
p("M08", "Materialized path: a full level refuses instead of corrupting",
  "When an insertion or move cannot be represented because the sibling positions of a level are used up, the operation is refused with an overflow error and the tree is left unchanged; "
  "otherwise it completes correctly. It never produces colliding, truncated or wrongly nested nodes, however close to capacity the level is.",
  ["inputs", "histories"], "every valid tree over small step capacities, up to and including completely full levels", "Tests overflow one fixed configuration at the far end only; behaviour near capacity depends on which slots are taken.",
  [MP], [("overflow detection", MP + ": _inc_path"), ("temporary relocation", MP + ": _reorder_nodes_before_add_or_move")])
# ---------------------------------------------------------------- nested sets
p("N01", "Nested sets: insertions build exactly the requested tree",
  "Adding a root, a child or a sibling to a valid nested-sets tree puts the new node exactly at the requested place and leaves every other node's parent, relative order and data unchanged. "
  "Afterwards the stored intervals, tree identifiers and depths form a valid, gapless nested-sets encoding of that tree.",
  ["inputs", "histories"], "every valid stored forest up to the size bound (shape, intervals and tree identifiers symbolic), every target and position", FIX,
  [NS], [("add_*", NS + ": NS_NodeManager"), ("gap opening", NS + ": _alter_gap/_move_tree_right")])
p("N02", "Nested sets: a move relocates exactly the requested branch",
  "Moving a node relative to any target outside its own branch makes that node, with its whole branch intact, occupy exactly the requested place, and no other node changes parent, relative order or data. "
  "Afterwards the stored intervals, tree identifiers and depths form a valid, gapless nested-sets encoding.",
  ["inputs", "histories"], "every valid stored forest up to the size bound, every node, target and position", FIX,
  [NS], [("move", NS + ": NS_NodeManager.move"), ("gap open/close", NS + ": _alter_gap/_close_gap/_move_tree_right")])
p("N03", "Nested sets: deletion removes whole branches and closes the gaps",
  "Deleting a node or any queryset of nodes removes exactly those nodes and all of their descendants, and every remaining node keeps its parent, order and data. "
  "The intervals left behind form a valid, gapless nested-sets encoding.",
  ["inputs", "histories"], "every valid stored forest up to the size bound, every subset of nodes selected for deletion", FIX,
  [NS], [("queryset delete", NS + ": NS_NodeQuerySet.delete"), ("gap closing", NS + ": _close_gap")])
p("N04", "Nested sets: sorted trees stay sorted under API operations",
  "In a nested-sets tree with a declared node ordering, whose siblings are all in that order (except perhaps a node about to be moved, whose data was edited), adding or moving a node leaves every sibling group in that order. "
  "The node gets the requested parent, all other nodes keep parent and relative order, and the interval encoding stays valid.",
  ["inputs", "histories"], "every valid sorted forest up to the size bound, every key values, every target and sorted position", FIX,
  [NS, MO], [("sorted position", MO + ": get_sorted_pos_queryset"), ("sorted insert/move", NS + ": add_sibling/move")])
p("N05", "Nested sets: every navigation query reports the true tree",
  "On a valid nested-sets tree, children, siblings, ancestors, parent, root, descendants (with any depth limit), neighbours, first/last queries, descendant counts, leaf/root/relationship predicates "
  "and whole-tree listings all return exactly the nodes, in exactly the depth-first or sibling order, that the tree defines.",
  ["inputs"], "every valid stored forest up to the size bound, every node and pair, every depth limit", FIX,
  [NS, MO], [("navigation", NS + ": get_* methods"), ("predicates", NS + ": NS_Node.is_*")])
p("N06", "Nested sets: the consistency checker accepts valid trees and flags broken ones",
  "The nested-sets problem finder reports nothing on a valid tree. On a table whose intervals are inverted, overlap, share a tree between two roots or carry wrong depths, it reports at least one problem, "
  "and never lists a node as inverted or with a wrong depth unless it is.",
  ["inputs", "fault_sequences"], "every table content of bounded size: arbitrary intervals, tree identifiers and depths", "Tests check one hand-made corruption per kind.",
  [NS], [("find_problems", NS + ": NS_NodeManager.find_problems")])
# ---------------------------------------------------------------- adjacency list
p("A01", "Adjacency list: insertions build exactly the requested tree",
  "Adding a root, a child or a sibling to a valid adjacency-list tree puts the new node exactly at the requested place. Every other node keeps its parent, relative order and data, "
  "and sibling order values stay distinct within every sibling group.",
  ["inputs", "histories"], "every valid stored tree (any distinct sibling order values), every target and position", FIX,
  [AL], [("add_*", AL + ": AL_NodeManager"), ("hole making", AL + ": _get_new_sibling_order/_make_hole_and_get_sibling_order")])
p("A02", "Adjacency list: a move relocates exactly the requested branch",
  "Moving a node relative to any target outside its own branch makes that node, with its whole branch intact, occupy exactly the requested place. Every other node keeps its parent, relative order and data, "
  "and sibling order values stay distinct within every sibling group.",
  ["inputs", "histories"], "every valid stored tree (any distinct sibling order values), every node, target and position", FIX,
  [AL], [("move", AL + ": AL_NodeManager.move")])
p("A03", "Adjacency list: deletion removes whole branches and nothing else",
  "Deleting a node or any queryset of nodes of an adjacency-list tree removes exactly those nodes and all of their descendants. Every remaining node keeps its parent, order and data.",
  ["inputs", "histories"], "every valid stored tree, every subset of nodes selected for deletion", FIX,
  [AL, MO], [("node delete", MO + ": Node.delete"), ("parent cascade", "user model's parent ForeignKey (on_delete=CASCADE)")])
p("A04", "Adjacency list: sorted trees stay sorted under API operations",
  "In an adjacency-list tree with a declared node ordering, adding or moving a node gives it the requested parent, leaves all other nodes' parents unchanged, and every sibling listing is in the declared order.",
  ["inputs", "histories"], "every valid tree, every key values, every target and sorted position", FIX,
  [AL, MO], [("default ordering", AL + ": AL_NodeManager.get_queryset"), ("add_*/move", AL + ": AL_NodeManager")])
p("A05", "Adjacency list: every navigation query reports the true tree",
  "On a valid adjacency-list tree, children, siblings, ancestors, parent, root, descendants (with any depth limit), neighbours, first/last queries, descendant counts, depth, leaf/root/relationship predicates "
  "and whole-tree listings all return exactly the nodes, in exactly the depth-first or sibling order, that the tree defines.",
  ["inputs"], "every valid stored tree, every node and pair, every depth limit; ordered and sorted models", FIX,
  [AL, MO], [("navigation", AL + ": get_* methods, _get_tree_recursively"), ("predicates", AL + ": AL_Node")])
# ---------------------------------------------------------------- ltree
p("L01", "Ltree: insertions build exactly the requested tree",
  "Adding a root, a child or a sibling to a valid ltree tree puts the new node exactly at the requested place. Every other node keeps its parent, relative order and data, and all paths stay unique with every non-root path's prefix present.",
  ["inputs", "histories"], "every valid stored tree (any labels within bounds), every target and position", FIX,
  [LT], [("add_*", LT + ": LT_NodeManager"), ("label choice", LT + ": generate_label/_get_new_path"), ("shift right", LT + ": _move_subtree_right")])
p("L02", "Ltree: a move relocates exactly the requested branch",
  "Moving a node relative to any target outside its own branch makes that node, with its whole branch intact, occupy exactly the requested place. Every other node keeps its parent, relative order and data, and all paths stay unique with every non-root path's prefix present.",
  ["inputs", "histories"], "every valid stored tree (any labels within bounds), every node, target and position", FIX,
  [LT], [("move", LT + ": LT_NodeManager.move"), ("shift right", LT + ": _move_subtree_right")])
p("L03", "Ltree: deletion removes whole branches and nothing else",
  "Deleting a node or any queryset of nodes of an ltree tree removes exactly those nodes and all of their descendants. Every remaining node keeps its path and data, and the number reported as deleted is the number removed.",
  ["inputs", "histories"], "every valid stored tree, every subset of nodes selected for deletion", FIX,
  [LT], [("queryset delete", LT + ": LT_NodeQuerySet.delete")])
p("L04", "Ltree: sorted trees stay sorted under API operations",
  "In an ltree tree with a declared node ordering, whose siblings are all in that order (except perhaps a node about to be moved, whose data was edited), adding or moving a node leaves every sibling group in that order. The node gets the requested parent and all other nodes keep parent and relative order.",
  ["inputs", "histories"], "every valid sorted tree (any labels within bounds), every key values, every target and sorted position", FIX,
  [LT, MO], [("sorted position", MO + ": get_sorted_pos_queryset"), ("sorted insert/move", LT + ": add_sibling/move")])
p("L05", "Ltree: every navigation query reports the true tree",
  "On a valid ltree tree, children, siblings, ancestors, parent, root, descendants (with any depth limit), neighbours, first/last queries, descendant counts, leaf/root/relationship predicates "
  "and whole-tree listings all return exactly the nodes, in exactly the depth-first or sibling order, that the tree defines.",
  ["inputs"], "every valid stored tree (any labels within bounds), every node and pair, every depth limit", FIX,
  [LT, "treebeard/ltree/fields.py", MO], [("navigation", LT + ": get_* methods"), ("path lookups", "treebeard/ltree/fields.py")])
p("L06", "Ltree: generated labels fall strictly between their neighbours",
  "A label generated between two optional neighbouring labels sorts strictly after the left one and strictly before the right one, is not one of the labels already in use, and is a legal label. "
  "Generation refuses only when the right neighbour does not leave room directly after the left one, and never fails otherwise.",
  ["inputs"], "every pair of optional neighbour labels and every set of used labels within the length bounds", "Tests try a few dozen literal label pairs.",
  [LT], [("generate_label", LT + ": generate_label")])
p("L07", "Ltree: paths are lists of labels in whatever form they are given",
  "A path given as text (blanks around it ignored), as a list of labels or as a path value has exactly these labels; its text is the labels joined by dots, two paths are equal exactly when their labels are, and part of a path has that part of the labels. "
  "The path field writes the text and reads the same labels back, keeps None, and refuses a number with ValueError; an object given a path in any of these forms shows the labels. "
  "Depth, root, child, sibling and descendant questions about objects, and the ancestors, descendants, exact and depth lookups and Subpath over stored rows, are decided label by label, never by how the texts start.",
  ["inputs"], "every path of up to three labels in every form, every well-formed text, every stored forest within bounds", "Tests use a handful of generated paths whose labels have one letter, where text prefixes and label prefixes agree.",
  [LT, "treebeard/ltree/fields.py"], [("path values", "treebeard/ltree/fields.py: PathValue, PathValueProxy"), ("conversions", "treebeard/ltree/fields.py: PathField"), ("lookups", "treebeard/ltree/fields.py: AncestorLookup, DescendantLookup, NLevel, Subpath"), ("predicates", LT + ": is_child_of, is_sibling_of, is_descendant_of")])
# ---------------------------------------------------------------- cross-cutting
p("X01", "Invalid requests are refused and change nothing",
  "For every tree type, asking for an unknown position, a position not allowed by the model's ordering mode, a move into the node's own branch, an insertion of an already saved node, or both or neither of data and instance, raises the documented error. "
  "The stored tree is exactly as before.",
  ["inputs"], "every valid stored tree, node, target and position of all four tree types, ordered and sorted", "Tests assert the error on one fixture and rarely the absence of effects.",
  [MO, MP, NS, AL, LT, "treebeard/utils.py"], [("position validation", MO + ": _prepare_pos_var"), ("descendant check", "move() of each tree type"), ("argument check", "treebeard/utils.py: check_create_args")])
p("X02", "Every tree operation is all-or-nothing under database failure",
  "If the database fails at any statement during an add, move, delete, bulk load or repair with path rewriting, the error propagates and the stored tree is left exactly as it was before the operation. "
  "No prefix of an operation's changes ever becomes visible.",
  ["crash_points", "fault_sequences", "inputs"], "every statement of every operation as the failing one, over every valid stored tree of bounded size", "No existing test injects a database failure in the middle of an operation.",
  [MO, MP, NS, AL, LT], [("transactions", "transaction.atomic on operations of each manager"), ("delete", "queryset delete of each tree type")])
p("X03", "Tree-change signals are sufficient to mirror the tree",
  "An observer who holds a copy of the tree columns and applies, for every signal sent during an add, move, delete or path repair, the documented change together with ordinary row saves, ends with exactly the stored tree. "
  "This holds for the materialized-path, nested-sets and ltree signals alike.",
  ["inputs", "histories"], "every valid stored tree, every operation with any node, target and position", "Tests assert a few literal signal calls on the fixture.",
  [MP, NS, LT], [("path_updated/nodes_deleted", MP), ("gap_altered/tree_ids_incremented/subtree_moved/nodes_deleted", NS), ("subtree_moved_right/subtree_moved/nodes_deleted", LT)],
  ["signals", "rows of the tree table"])
p("X04", "Node objects used in an operation are fresh afterwards",
  "After an add or a move returns, the created or moved node object and the target object passed by the caller agree with the stored tree: their position columns equal the database and their cached parent or depth is the true one. "
  "They can be used directly for the next operation or query without reloading.",
  ["inputs", "histories"], "every valid stored tree, every operation with any node, target and position, all tree types", "Tests reload nodes from the database before asserting nearly everywhere.",
  [MP, NS, AL, LT], [("refresh after move", "move() of each tree type"), ("in-memory updates", "add_child/add_sibling of each tree type")],
  ["attributes of the caller's objects", "rows of the tree table"])
p("X05", "Adding children through stale or shared parent objects is safe",
  "When several independently loaded objects of the same parent, or several not yet reloaded objects in a row, are used to add children, each added node becomes the last child (or takes its sorted place) and the tree stays valid. "
  "Out-of-date in-memory copies of the parent never corrupt the tree.",
  ["histories", "inputs"], "every valid stored tree, every interleaving of bounded length of child additions and other changes through stale parent objects", "Tests try a single two-object scenario.",
  [MP, NS, AL, LT], [("parent re-read and lock", "add_child of each tree type: select_for_update")])
p("X06", "Bulk dump and load round-trip any tree",
  "Dumping a tree or a branch and loading it elsewhere reproduces the same shape, the same sibling order and the same data, many-to-many relations included, under the requested parent and after existing siblings, with identical keys when asked to keep them. "
  "Loading through the bulk-creation mode gives the same tree as loading node by node.",
  ["inputs", "histories"], "every valid stored tree and branch of bounded size, all tree types, with and without keys, with and without bulk creation", "Tests round-trip the fixture.",
  [MO, MP, NS, AL, LT, "treebeard/utils.py"], [("dump_bulk", "each tree type"), ("load_bulk", MO + ": NodeManager.load_bulk, " + MP + ": load_bulk"), ("deserialisation", "treebeard/utils.py: prepare_dumpdata_for_loading")])
p("X07", "Annotated lists encode the tree's nesting exactly",
  "The annotated listing of a whole tree, a branch, or either one limited in depth contains the right nodes in depth-first order with right relative levels. Its open and close marks are balanced and nest exactly as the tree does.",
  ["inputs"], "every valid stored tree, branch and depth limit, all tree types", "Tests compare literal listings for the fixture.",
  [MO], [("get_annotated_list(_qs)", MO + ": NodeManager")])
p("X08", "The move form saves exactly the tree change it displays",
  "Saving the tree form for a new or existing node with any offered relative position and reference node produces exactly the requested placement together with the edited data. "
  "The form shows the node's current placement as its initial value, and never offers a node's own branch as its destination; every node it offers is indented by its depth.",
  ["inputs"], "every valid stored tree, edited node, offered position and reference node; ordered and sorted models", "Tests drive a few form submissions on the fixture.",
  ["treebeard/forms.py", MP, NS, AL], [("MoveNodeForm", "treebeard/forms.py: save/_get_position_ref_node/_get_creation_data/mk_dropdown_tree")])
p("X09", "Position numbers and path steps convert faithfully and in order",
  "Converting a non-negative number to its alphabet representation and back gives the same number, and conversion of a representation is injective. Fixed-width steps compare as text exactly as their numbers compare, for every alphabet in ascending character order.",
  ["inputs", "configurations"], "every number below capacity and every step, for several alphabets and step lengths", "Tests convert a few literal numbers.",
  ["treebeard/numconv.py", MP], [("NumConv", "treebeard/numconv.py"), ("step building", MP + ": _get_path/_inc_path/_get_lastpos_in_path")])
p("X10", "The admin's drag-and-drop view applies the move it was asked for",
  "The admin move request places the node exactly as asked (before, after or inside the target, or sorted when an ordering is declared) and refuses, without changing the tree, requests that lack permission or would put a node in its own branch. "
  "Every other node keeps its place.",
  ["inputs"], "every valid stored tree, node, target, requested position and permission", "Tests post a few requests on the fixture.",
  ["treebeard/admin.py"], [("move view", "treebeard/admin.py: TreeAdmin.move_node/try_to_move_node")])
p("X11", "Inherited and proxy node models share one consistent tree",
  "When nodes of a tree are instances of subclasses with their own tables or of proxy models, adding, moving and deleting through any of those classes acts on the one shared tree just as it does for plain nodes. "
  "Subclass data follows its node, and no orphaned or missing part of a node is left.",
  ["inputs", "histories"], "every valid stored tree mixing base and subclass nodes, every operation through either class", "Tests run the fixture against one inherited layout.",
  [MO, MP, NS, AL, LT], [("tree_model", MO + ": NodeManager.tree_model")])
p("X12", "Concurrent child additions on separate connections serialise",
  "When two or more connections add children to the same parent at the same time, in any interleaving of their database statements that row locks permit, the outcome equals some sequential order of the additions and the tree stays valid.",
  ["schedules"], "every interleaving of two add-child operations on a database with row locks, over bounded trees", "The suite has no concurrent test.",
  [MP, NS, AL, LT], [("parent row lock", "add_child of each tree type: select_for_update")])
p("X13", "The admin's tree listing shows exactly a node's children, in order",
  "The admin list of a tree model shows, at the top or below any node asked for, exactly that node's children in sibling order, each with its true child indicator, with pagination cutting this list into consecutive pieces. "
  "It is shown exactly to users allowed to see it, and a request for a node that does not exist shows no children of anything.",
  ["inputs"], "every valid stored tree, node asked for, page and permission, all tree types, multi-table classes and proxies included", "Tests list the fixture.",
  ["treebeard/admin.py", "treebeard/templatetags/admin_tree.py", MO], [("changelist", "treebeard/admin.py: TreeAdmin.get_queryset/changelist_view/TreeChangeList"), ("rows", "treebeard/templatetags/admin_tree.py")],
  ["context and rows of the admin list page"])
p("X14", "Deprecated calls on node classes do what the manager calls do",
  "Every tree operation and query that is still offered, deprecated, on the node class returns or does exactly what the same call on the class's manager does, with the same arguments and defaults. "
  "This holds for reads, additions, moves, dumps, loads, checks and repairs alike.",
  ["inputs"], "every valid stored tree of bounded size, every deprecated call and its arguments, all tree types", "Tests call each deprecated name at most once on the fixture.",
  ["treebeard/deprecation.py", MO], [("deprecated class methods", "treebeard/deprecation.py; " + MP + ": MP_*Handler"), ("their targets", MO + ": NodeManager")])
p("X15", "The admin's edit pages apply a submission completely or not at all",
  "Submitting the admin's add or change page of a node, with rows of another table edited alongside, either stores the node's data, its requested place and all accompanying rows, or shows the page again (or denies it) and stores nothing at all. "
  "A submission is accepted exactly when it is free of errors, permitted, and does not put the node inside its own branch.",
  ["inputs"], "every valid stored tree, node, reference and position, erroneous or correct submission, permission; all tree types", "Tests save forms alone, without the rest of the admin page's processing.",
  ["treebeard/admin.py", "treebeard/forms.py"], [("two-step saving", "treebeard/forms.py: MoveNodeForm.save"), ("offered references", "treebeard/forms.py: _set_ref_model_queryset")],
  ["rows of the tree table and of the accompanying table", "HTTP responses"])
p("X16", "Managers extended as documented keep every tree operation right",
  "When a model's manager extends the tree's manager and queryset as documented, and its querysets follow a (nullable) relation, prefetch related rows and carry a computed column, every tree query and operation gives the same tree and answers as without. "
  "This covers navigation, additions, moves, deletions, dumps, loads, problem finding and repair.",
  ["configurations", "inputs"], "every valid stored tree of bounded size, every operation, all tree types, plain and sorted", "Tests use such a queryset in a single deletion.",
  [MP, NS, AL, LT, MO], [("row lock of the parent", "add_child of each tree type"), ("whole-tree reads", "dump_bulk/find_problems/fix_tree of each tree type"), ("label choice", LT + ": generate_path")])

p("X17", "Primary keys of any name, type and value identify nodes alike",
  "When a tree model declares its own primary key, of another name and holding any integers (zero and negatives included) or texts, every tree query, operation, dump, form and admin page identifies nodes exactly as with the default key. "
  "No key value is mistaken for the absence of a node, and no answer depends on the order of the keys.",
  ["configurations", "inputs"], "every valid stored tree of bounded size, every operation, all tree types, plain and sorted, integer and text keys", "Tests use automatic keys and, on a few models, random UUIDs.",
  [MP, NS, AL, LT, MO, "treebeard/forms.py", "treebeard/admin.py"], [("key comparisons", "each tree type's navigation and move"), ("forms and admin", "treebeard/forms.py; treebeard/admin.py; treebeard/templatetags")])

p("X18", "It does not matter how a node object was obtained",
  "Every tree query, addition, move and deletion through a saved node's object has the same effect and answer whether the object was loaded completely, with only() or defer() leaving out any fields, copied, refreshed, or taken from another tree query. "
  "After the operation the objects the caller holds still describe the stored tree.",
  ["inputs"], "every valid stored tree of bounded size, every operation, every such way to get the objects, all tree types, plain and sorted", "Tests load all objects completely.",
  [MP, NS, AL, LT, MO, LT.replace("__init__.py", "fields.py")], [("deferred paths", LT.replace("__init__.py", "fields.py") + ": PathValueProxy"), ("in-memory upkeep", "add_child/add_sibling/move of each tree type")])


with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
for q in P:
    assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    assert q["statement"].count(". ") <= 2, q["id"]
print(len(P))
