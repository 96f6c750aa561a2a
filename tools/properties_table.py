prop("C01", "Loading and saving a Spine 3.8+ document keeps its meaning",
     "For every document of Spine 3.8 or later that the editor accepts, exporting it without any edit yields the same document: the same bones, slots, skins, attachments, constraints, events and animations, in the same order, and every attribute with the same value once Spine's documented default is filled in for attributes that are absent. No attribute is lost, invented or changed, whatever its value (0, negative, false, empty, equal or close to a default).",
     ["inputs"], "all attribute values (numbers, booleans, strings, lists) of every object kind and every combination of two attributes present/absent, next to otherwise empty or full objects",
     "The tests round-trip two recorded files; an attribute dropped only for one value, or only together with another attribute, is not in them.",
     [BASE, DATA] + TYPES,
     [("per-type default tables used for omitting and re-filling attributes", BASE), ("typed parsing of every section", DATA)],
     observe=["SpineAnimationEditor(json).to_json_data()"])

prop("C02", "Content the library does not understand is refused, never dropped",
     "Loading fails with the library's parsing error when any object of the document carries an attribute the library does not support for that kind of object or lacks a required one (a bone's name, a slot's name or bone, a draw order entry's offset), and with ValueError for an attachment of unknown type. An object with only supported attributes is accepted.",
     ["inputs"], "every attribute name (symbolic text up to the stated length) at every kind of object, every attachment type text",
     "Tests try one unknown attribute; they cannot show that no name and no place slips through silently.",
     [BASE] + TYPES, [("unknown/required attribute check in the common base type", BASE), ("dispatch on the attachment type", "spine_json_lib/data/data_types/skin.py")],
     observe=["SpineAnimationEditor(json)"])

prop("C03", "Spine versions are parsed exactly and ordered as (major, minor, patch)",
     "A text is accepted as a version exactly when it is two or three dot-separated decimal numbers, and then has those components, a missing patch being 0; every other text is refused with ValueError. Comparing versions with <, <=, >, >=, == and != agrees with comparing the triples most significant component first, whether the other operand is a version or its text.",
     ["inputs"], "all pairs of versions with components of up to 2 (thorough 3) digits; all texts of up to 6 (7) characters over a hostile alphabet",
     "Tests compare a handful of hand-picked versions; an ordering bug needs particular combinations of components.",
     [VER], [("component parsing and comparison operators", VER)], observe=["SpineVersion"])

prop("C04", "Removing slots never changes the draw order of the others",
     "When slots are removed from a document, every draw order keyframe of every remaining animation still draws the remaining slots in the same relative order as before, as the Spine runtime computes it from the slot list and the keyframe's offsets. The rewritten keyframe stays loadable: entries only for existing slots, every entry moves its slot to a position inside the list and no two entries claim the same position.",
     ["inputs"], "all slot lists up to the stated size, all valid offset sets (symbolic entries), all subsets of removed slots",
     "Tests have a few recorded drawOrder cases; the arithmetic over arbitrary permutations and removals is not reachable by examples.",
     ["spine_json_lib/data/data_types/draworder.py", ED], [("recomputation of draw order offsets after removals", "spine_json_lib/data/data_types/draworder.py")],
     observe=["clean_animation / erase_animations / erase_skins followed by to_json_data()"])

prop("C05", "Cleaning never removes anything a remaining animation can show",
     "Cleaning up (on its own or as part of erasing animations or skins) never removes a slot, an attachment, a slot timeline or a set-up attachment through which some remaining animation shows something: whenever, at some time of some remaining animation, a slot displays an attachment with an alpha above 0, that slot and that attachment are still there, in every skin that had it, unchanged, with their timelines. The same holds for slots that a path constraint targets or at which a clipping ends.",
     ["inputs"], "all combinations of set-up attachment, colour, dark colour, blend mode, attachment and colour timelines (symbolic times, names, alphas) over up to 2 slots, 2 animations, 2 skins",
     "Visibility depends on a combination of set-up state and the timelines of all animations; tests cover two recorded skeletons.",
     [DATA, ED, CONT], [("computation of the unused slots and attachments", DATA), ("removal of slots, attachments and leaf slots", ED)],
     observe=["clean_animation", "erase_animations", "erase_skins"])

prop("C06", "Editing never leaves a dangling reference",
     "If every reference inside a document resolves, then after any erase or clean-up every reference still resolves: slots name existing bones, set-up and keyed attachments exist in some skin for their slot, skins and timelines name existing slots, deform timelines name existing skins, slots and attachments, draw order entries name existing slots, linked meshes have their parent mesh, constraints and clippings have their bones, targets and end slots.",
     ["inputs", "histories"], "documents of up to 2 slots, 2 skins, 2 animations with symbolic choice of every reference, all erase/clean operations",
     "A reference dangles only for particular combinations of what is erased and what refers to it.",
     [ED, DATA], [("clean-up of skins, slots, timelines, deforms and draw orders after removals", ED)],
     observe=["to_json_data() after each operation"])

prop("C07", "Editing changes nothing but what it removes",
     "After erasing or cleaning, the document is the original one with the removed animations, skins, slots and attachments taken out together with the entries that belong to them: everything else - bones, constraints, events, remaining slots, skins, attachments, timelines, their order and all their values - is unchanged. The reported summary names exactly the slots that were removed and only attachment names that no longer exist anywhere in the skins.",
     ["inputs"], "documents with symbolic values in every section, all erase/clean operations",
     "Tests compare a few fields of recorded files; collateral changes to other values are invisible to them.",
     [ED, DATA, PARSER], [("rebuilding of slots and constraints after clean-up", ED)],
     observe=["to_json_data() before/after", "the operations' return values"])

prop("C08", "Cleaning removes what can never be seen",
     "After cleaning a document that has animations, no slot is left that is invisible in every animation - no attachment, colour, dark colour or blend mode at set-up and never given an attachment; or set-up alpha 0 and never recoloured; or emptied at time 0 and never coloured in every animation - unless a path constraint or clipping refers to it. No attachment name is left in the skins that is neither the set-up attachment of a slot visible in some animation nor keyed there, except meshes of slots that stay, and no slot is left without any attachment unless referred to.",
     ["inputs"], "same space as C05",
     "Needs all combinations of set-up state and timelines; tests see two skeletons.",
     [DATA, ED], [("computation of the unused slots and attachments", DATA)],
     observe=["clean_animation", "erase_animations", "erase_skins"])

prop("C09", "Erasing animations removes exactly the named ones or fails untouched",
     "Erasing a list of animations leaves exactly the animations that are not named, in their order and with their content; names that do not exist raise ValueError in strict mode, before anything was changed, and are ignored otherwise, and an argument that is not a list raises TypeError. In safe mode nothing else in the document changes, and the returned document equals a later export.",
     ["inputs"], "symbolic animation names and erase lists (unknown names, repetitions), strict and lenient, safe mode on and off",
     "Tests erase existing animations of one file; unknown, repeated and mixed names are not covered.",
     [ED], [("removal of raw animation data", ED)], observe=["erase_animations", "to_json_data()"])

prop("C10", "Erasing skins removes exactly the named ones and keeps the others complete",
     "Erasing skins leaves exactly the skins that are not named, in order; a name that does not exist raises the library's editor error before anything was changed. Linked meshes of the remaining skins whose parent mesh was in an erased skin become ordinary meshes with the parent's geometry and their own name, image path, size and colour; deform timelines of the erased skins disappear, those of other skins stay, set-up attachments and keyframes naming an attachment that no remaining skin has for the slot are cleared, and the reported images are those the erased skins used and no remaining skin uses.",
     ["inputs"], "up to 3 skins, symbolic choice of erased skins, attachment kinds, names, paths and link targets",
     "Tests erase skins of one recorded file; shared names, several erased skins and link targets vary in practice.",
     [ED, DATA], [("skin removal with copy of linked meshes' parents", DATA), ("images reported as removed", ED)],
     observe=["erase_skins", "to_json_data()"])

prop("C11", "images_references always lists exactly the images in use",
     "At any moment - after loading and after every operation - images_references has exactly one entry per image used by a region, mesh or linked mesh attachment of the document, keyed by its path, else its name, else its key, with the images folder of the skeleton (./images/ by default) prefixed; attachments without images have none.",
     ["inputs", "histories"], "symbolic paths, names and keys shared between slots and skins, attachment kinds, one erase/clean operation",
     "Sharing of one image by several attachments is what breaks naive updates; tests check one file.",
     [ED], [("recomputation of the image references", ED)], observe=["images_references"])

prop("C12", "Image scale is the slot's tag times the tags of its bone's ancestors",
     "The scale reported for an image is the product of the scale tag in the name of the slot showing it and those in the names of the slot's bone and all its ancestors below the root, each 1 when absent, and is left out when it is 1.",
     ["inputs"], "bone chains up to depth 3 (4 thorough), a symbolic numeric tag value present or absent at every level",
     "One recorded file has tags in one place.",
     [DATA, UTILS, ED], [("product along the bone chain", DATA)], observe=["images_references"])

prop("C13", "Tags in names are parsed exactly",
     "A name's tags are the bracketed 'key:value' groups it contains and nothing else: a scale tag gives the number written in it whatever surrounds it, a name without tags gives none, and repeated tags, unsupported tag names and scale values that are not numbers raise ValueError.",
     ["inputs"], "every name up to 7 (8) characters over an alphabet of brackets, colons, digits, spaces and letters, and longer names around a symbolic scale tag",
     "Tests have a dozen example names.",
     [UTILS], [("tag pattern and value conversion", UTILS)], observe=["get_tags_from_name"])

prop("C14", "scale_animation scales the root and non-inheriting bones exactly once",
     "Scaling by (sx, sy) multiplies scaleX by sx and scaleY by sy of the root bone and of every bone whose transform mode is noScale, noScaleOrReflection or onlyTranslation, each exactly once, and changes nothing else in the document; a bone without an explicit scale counts as 1. Scaling twice multiplies twice, and a later clean-up or erase keeps the scale.",
     ["inputs", "histories"], "all doubles as factors and bone scales, all transform modes, up to 3 bones in any order, two scalings, a following clean-up",
     "One recorded file and factor; floating point values, bone order and later operations are not covered.",
     [ED, "spine_json_lib/data/data_types/bone.py"], [("bone scaling", ED)], observe=["scale_animation", "to_json_data()"])

prop("C15", "Editors are isolated from their input, their outputs and each other",
     "The document passed in is never modified by loading or by any operation, an exported document shares no mutable part with the editor, so that modifying it affects neither the editor nor later exports, exporting changes nothing and gives the same result when repeated, and two editors made from one document do not influence each other.",
     ["histories"], "sequences of load, operation, export, modification of every container of the export or input",
     "Aliasing shows up only when something is modified afterwards, which the tests never do.",
     [DATA, BASE, ED], [("deep copies at the borders and of default values", DATA)], observe=["SpineAnimationEditor(json)", "to_json_data()"])

prop("C16", "Graph edges are symmetric and operations are exact or have no effect",
     "After any sequence of adding and removing nodes and edges, a node is another's child exactly when the other is its parent, both belong to the graph, and nodes and edges are exactly those that were added and not removed. An operation that raises (duplicate or non-text id, unknown node, self loop, forbidden child type, missing edge) changes nothing.",
     ["histories"], "all sequences of up to 3 (4) operations with symbolic arguments from any graph over 3 nodes",
     "Tests run fixed sequences; invariants over histories need all of them.",
     [GRAPH, NODE], [("edge bookkeeping on both ends", NODE), ("node removal", GRAPH)], observe=["get_node", "children", "parents"])

prop("C17", "Heads and tails are exactly the nodes without parents and without children",
     "get_heads_id lists every node without parents exactly once and no other node, and get_tails_id every node without children, for every graph, also with several components, diamonds or cycles, and after removals.",
     ["inputs"], "all directed graphs with symbolic edges over up to 4 nodes (5 for acyclic graphs)",
     "Tests try a few shapes.",
     [GRAPH], [("traversal collecting end nodes", GRAPH)], observe=["get_heads_id", "get_tails_id"])

prop("C18", "Validation reports circular references and unconnected nodes exactly",
     "Validating a graph reports a circular reference if and only if the graph has a directed cycle, and then every reported node is in the graph; it reports as unconnected exactly the nodes without parents that are not input roots. Valid graphs give an empty report, and validating changes nothing.",
     ["inputs"], "all directed graphs with symbolic edges and node types over up to 4 nodes",
     "Cycle detection fails on particular shapes (shared children, several components), tests have a few.",
     [VALID, GRAPH], [("cycle search", VALID)], observe=["validate().errors"])

prop("C19", "get_all_paths returns every path exactly once",
     "For a valid graph, get_all_paths(a, b) returns exactly the directed paths from a to b, each once, as lists of node ids from a to b, leaving out those with more nodes than the maximum depth; an invalid graph or an unknown end raises ValueError, and the graph is unchanged.",
     ["inputs"], "all acyclic graphs over up to 5 nodes with symbolic edges, all end points, maximum depths 1..5",
     "Tests check a few graphs, mostly with one or two paths.",
     [GRAPH], [("depth-first path enumeration", GRAPH)], observe=["get_all_paths"])

prop("C20", "sequential_order_of_execution is a complete dependency order",
     "For every acyclic graph the sequential order lists every node exactly once and every node after all its parents.",
     ["inputs"], "all acyclic graphs with symbolic edges over up to 5 nodes, in any insertion order of edges",
     "Tests check one graph; wrong orders need diamonds or several heads.",
     [GRAPH], [("ordering traversal", GRAPH)], observe=["sequential_order_of_execution"])

prop("C21", "Generated ids are fresh and nodes are identified by their id",
     "A node added without an id gets an id no other node of the graph has, whatever ids were added explicitly or removed before, and finding a node by its id gives that node. Two nodes are equal exactly when their ids are equal, and equal nodes have equal hashes.",
     ["histories"], "all sequences of up to 4 (5) additions/removals with symbolic explicit ids (also numeric texts)",
     "Collisions need explicit numeric ids interleaved with generated ones.",
     [GRAPH, NODE], [("id generation", GRAPH), ("node equality and hash", NODE)], observe=["add_node", "generate_unique_id"])

prop("C22", "Converting a skeleton to the graph and back loses nothing",
     "Parsing a document into the graph and exporting it gives back the bones, slots and inverse-kinematics constraints with their data and order, even when a bone, a slot, a constraint, an attachment and an image share one name or names end in a kind's suffix. Every bone is connected to its parent bone, every slot to its bone and to its attachments in every skin, every attachment to its image and every constraint to its bones and target.",
     ["inputs"], "up to 3 bones, 2 slots, 2 skins, 1 constraint with symbolic (possibly equal or suffix-like) names and references",
     "Name collisions between kinds are not in the recorded files.",
     [PARSER, CONT], [("typed graph ids", PARSER)], observe=["DAGraph.create_from_json_data", "to_json_data", "node parents/children"])

prop("C23", "Files are written where asked and hold exactly the exported data",
     "Writing the document or the images list to a path creates missing directories, works for bare file names, relative and nested paths, overwrites an existing file, creates nothing else, and the file read back as JSON is exactly the exported document or the images references, the entries of every object in the same order; loading that file again gives an editor with the same export.",
     ["inputs"], "every relative path of up to 4 components with symbolic characters, existing or missing directories",
     "Tests write to one kind of path.",
     [ED], [("creation of the target directory and dumping", ED)], observe=["to_json", "save_images_json", "from_json_file"])

prop("C24", "Downgrading drops exactly the attributes old versions do not know",
     "Cleaning unsupported attributes for a version below 3.8 removes the second, third and fourth Bezier control values from bone, slot and inverse-kinematics keyframes and nothing else; for version 3.8 or later it changes nothing.",
     ["inputs"], "symbolic target version and symbolic values of every keyframe attribute of every timeline kind",
     "No test exercises it with values in all timelines.",
     [BASE] + TYPES, [("per-type list of unsupported attributes", BASE)], observe=["spine_anim_data.data.clean_unsupported_attributes", "to_json_data()"])

prop("C25", "An editor has no hidden state",
     "After any sequence of operations the editor behaves exactly like a fresh editor loaded from its own export: the export can be loaded again, and the same further operations give the same documents, image references and errors. In particular cleaning twice is the same as cleaning once, erasing is the same as erasing in safe mode and cleaning up afterwards, and erasing two sets of animations (or, in safe mode, of skins) one after the other ends in the same document as erasing them together.",
     ["histories"], "all sequences of two (three) operations over erase animations, erase skins, scale, clean with symbolic arguments and symbolic documents",
     "Stale internal structures only show in particular sequences of operations; tests run one operation per editor.",
     [ED, DATA, CONT], [("graph and image references kept next to the document", ED)], observe=["to_json_data()", "images_references"])

prop("C26", "Pruning the skeleton graph removes exactly what is loose",
     "Removing the leafs of a type from a document's graph removes exactly the nodes of that type that have no child left, repeatedly until none is left, except those whose names are to be kept; removing the heads of a type does the same for nodes without a parent. Removing slots or attachments by name removes exactly the nodes of these names and refuses unknown names with ValueError. All other nodes keep their data and their connections to each other, what is removed is what is reported, and the document itself is not touched.",
     ["inputs", "histories"], "documents of 3 bones, 2 slots, shared or own attachments and images and a constraint, connected in any way; any type, any kept or removed names, sequences of two operations; symbolic names (also such as look like ids of the graph)",
     "The tests prune two recorded skeletons with one list of names; chains that become loose one after the other, shared children and names that resemble ids of other kinds are not in them.",
     [CONT, GRAPH, PARSER], [("pruning of leafs and heads by type", CONT), ("node removal", GRAPH), ("typed ids", PARSER)],
     observe=["remove_leafs_of_type", "remove_heads_of_type", "remove_slots", "remove_attachments", "graph.get_node"])

prop("C27", "Results depend on the inputs only",
     "The same operations on the same inputs give the same results in every process: the exported document and the image references including the order of all their keys and entries, the reported images of removed skins, the paths, orders, heads, tails and errors of a graph, and parsed versions and name tags. They depend neither on the order in which a process happens to iterate over sets (hash seed) nor on documents, graphs, names or versions handled earlier in the process. (Removed slots and attachments are reported in no particular order.)",
     ["inputs", "schedules", "histories"], "any order of set elements (the hash seed as a symbolic choice) over documents with up to 4 removable slots, any acyclic graphs over 4 nodes; pairs of documents with any attribute values, of graphs, versions and tagged names, one handled before the other",
     "A test run has one hash seed and asserts on fixed documents; an order or a cache that leaks into results shows only for some seeds or some pairs of documents.",
     [ED, DATA, CONT, GRAPH, UTILS, VER], [("sets of slots and attachments to remove", DATA), ("rebuilding sections from the graph", PARSER), ("class and module level tables", BASE)],
     observe=["to_json_data()", "images_references", "erase_skins", "get_all_paths", "sequential_order_of_execution", "validate"])

prop("C28", "Loading and editing end, whatever a document refers to",
     "Loading a document and every operation on the editor (cleaning up, erasing animations or skins, scaling, downgrading, exporting), pruning its graph and every question about a graph end with a result or an error, never in an endless loop or recursion, and leave the document passed in as it was, whatever the document refers to: bones, slots, attachments, skins and constraints that are missing, that come later, that are themselves, or that refer to each other in a circle.",
     ["inputs"], "up to 3 bones with any parents, two linked meshes with any parents, skins and copies, constraints, clippings, draw orders and timelines referring to anything, all directed graphs over 3 (4) nodes; every operation",
     "The recorded documents are valid exports; an endless loop needs a document with circular references.",
     [DATA, ED, GRAPH, CONT], [("inherited scale along the bones", DATA), ("search for cycles", GRAPH), ("linked meshes of removed skins", DATA)],
     observe=["SpineAnimationEditor(...)", "every operation", "validate", "get_all_paths", "sequential_order_of_execution"])
