NOTES = {
"C01": dict(
  how="loading a symbolic document with `SpineAnimationEditor` and exporting it; the export is compared attribute by attribute with the input, every attribute of every kind of object taking any value (any double, any integer, any text) in turn and in pairs.",
  oracle="the input with Spine's documented defaults filled in (`harness/doc.py`), order of lists and of animations and events included.",
  why="whether a value is lost depends on how it compares with the library's default table (0, False, \"\", values equal to another attribute's default); samples miss exactly those."),
"C02": dict(
  how="loading a document with one attribute of symbolic name at every place an object can have attributes, with each required attribute missing in any company, and with any attachment type.",
  oracle="refused with SpineParsingException (ValueError for a type), or the export equals the input; names equal to a documented attribute are excluded by assumption.",
  why="a test can try a handful of unknown names; here the name is any text."),
"C03": dict(
  how="`SpineVersion` on symbolic text: all texts up to a length for acceptance, symbolic digit strings for the six operators with versions and text on the right-hand side.",
  oracle="a hand-written scanner for the grammar; comparison of the integer triples, most significant first.",
  why="order bugs show only for particular digit combinations (carry between components, different widths)."),
"C04": dict(
  how="cleaning/erasing with draw order keyframes whose offsets are symbolic, over every subset of removed slots.",
  oracle="Spine's own reading of a keyframe (each entry moves its slot to index+offset, the others fill the gaps) on the old and the new slot list; relative order of survivors must agree, entries must be valid.",
  why="the number of slot/offset/removal combinations; wrong offsets need particular crossings."),
"C05": dict(
  how="the clean-up and the erase operations on documents whose set-up state, attachment keys, colour keys, times and alphas are symbolic; the question \"is this shown at some time\" is a formula over times and alpha digits that the solver decides together with what the library did.",
  oracle="`world.shown`: piecewise attachment and linearly interpolated alpha over half-open intervals, written from the Spine runtime's semantics.",
  why="visibility depends on alpha digits, on key times and on the combination of both timelines, in any animation."),
"C06": dict(
  how="the same kind of documents plus one with every kind of reference; after every operation the export is scanned.",
  oracle="`dangling`: all references of the export resolve (the input's are assumed to).",
  why="needs the combination of a removal with a reference elsewhere (linked mesh in another skin, clipping end, deform without slot timeline, equal names)."),
"C07": dict(
  how="comparing the export after an operation with the input restricted to what is left, section by section, with symbolic values, set-up states, and names.",
  oracle="`restrict`: the input without the removed slots/attachments and their entries; the reported summary must name exactly the removed ones.",
  why="unintended changes show only for particular values (defaults, falsy) or names (prefixes, equal names in other slots)."),
"C08": dict(
  how="cleaning symbolic documents and deciding for every slot and attachment name that is left whether the solver can make it removable.",
  oracle="the statement's three kinds of invisible slot and unused attachment, evaluated on the input; path targets and clipping ends exempt.",
  why="a missed removal needs a specific state (exact alpha 0, keyed off at time 0 in every animation)."),
"C09": dict(
  how="`erase_animations` with symbolic animation names and symbolic names to erase (known, unknown, repeated; strict, safe), wrong argument types, and any value in the remaining animations.",
  oracle="the list of names not erased, in order; the input's content for them; nothing changed on refusal.",
  why="order, duplicates and failure atomicity over all combinations."),
"C10": dict(
  how="`erase_skins` over linked meshes with any of their attributes in any skin with any parent skin, any subset of skins erased, images shared through symbolic keys/names/paths, any skin/slot/attachment names.",
  oracle="`expected`: the input without the skins, linked meshes of erased parents materialised, references cleared; reported images as a set difference.",
  why="the interaction of parent skin, erased set and attribute presence has thousands of combinations."),
"C11": dict(
  how="loading and operating with symbolic paths, names, keys and images folder.",
  oracle="recomputing the references from the exported document.",
  why="paths may collide, be absolute, or be shared between attachments that are removed and kept."),
"C12": dict(
  how="symbolic tag values in slot and bone names on chains of bones; the reported scale is compared with the product.",
  oracle="product of the factors along the ancestors below the root.",
  why="the value space of tags and chains."),
"C13": dict(
  how="`get_tags_from_name` on symbolic text (all texts up to a length over brackets, colon, digits, letters, spaces) and on tags with symbolic parts.",
  oracle="a hand-written scanner for bracket groups.",
  why="parsing: every short text is covered, not a few."),
"C14": dict(
  how="`scale_animation` with any doubles as factors and scales, any transform modes, histories with clean-ups, erasures and exports in between.",
  oracle="the bone list with the products, everything else equal.",
  why="signs, zeros, absent scales, repeated scaling, interaction with cleaning."),
"C15": dict(
  how="running operations, then destroying every container of the input or of an export, and comparing later exports; two editors of one document.",
  oracle="a second editor on a pristine copy that nobody touched.",
  why="aliasing shows only in particular histories and for particular attributes (lists, nested dictionaries)."),
"C16": dict(
  how="one operation with any arguments on any graph of 3 nodes (adjacency matrix symbolic, symbolic ids), all short histories from the empty graph, symbolic type rules.",
  oracle="a set of nodes and a set of edges kept by the harness; unchanged on exceptions.",
  why="an inductive step over all small graphs covers histories no test runs."),
"C17": dict(
  how="`get_heads_id`/`get_tails_id` on all graphs of up to 4 nodes (symbolic adjacency) in several insertion orders, then removals.",
  oracle="row/column emptiness of the adjacency matrix.",
  why="several components, cycles and isolated nodes in all combinations."),
"C18": dict(
  how="validating all graphs of up to 4 nodes with symbolic edges and node types.",
  oracle="reachability closure of the adjacency matrix; parentless non-input nodes.",
  why="cycle detection fails only on particular shapes and orders."),
"C19": dict(
  how="`get_all_paths` on all acyclic graphs of up to 5 nodes, all ends, all depths; invalid graphs.",
  oracle="simple path enumeration on the adjacency matrix.",
  why="shared sub-paths, depth limits and dead ends in all combinations."),
"C20": dict(
  how="`sequential_order_of_execution` on all acyclic graphs of up to 5 nodes, nodes in any insertion order.",
  oracle="a permutation in which every edge goes forward.",
  why="order bugs need diamonds in a particular insertion order."),
"C21": dict(
  how="histories of explicit (symbolic) and generated ids and removals; equality and hash of two nodes with any ids, types, data.",
  oracle="the set of ids taken so far; equality of ids.",
  why="collisions need explicit ids that are the numbers the generator reaches later."),
"C22": dict(
  how="parsing symbolic skeletons (names of all kinds symbolic or equal to ids of the graph) into the graph and back.",
  oracle="the sections themselves; edges computed from parents, bones, skins and targets.",
  why="collisions between ids of different kinds, names ending in a kind's suffix, names like 'None'."),
"C23": dict(
  how="`to_json`, `save_images_json`, `from_json_file` on every path of up to 4 characters of 'a', '.', '/' with directory states; symbolic document values travel through the real file.",
  oracle="the path as the operating system resolves it; the document read back; the listing of the scratch directory before and after.",
  why="bare names, dotted, relative and nested paths, existing files."),
"C24": dict(
  how="`clean_unsupported_attributes` with symbolic target versions and symbolic values.",
  oracle="the document without c2, c3, c4 in bone, slot and ik keyframes when the version is below 3.8, else unchanged.",
  why="version order and value-dependent dropping."),
"C25": dict(
  how="running an operation on an editor and on a fresh editor loaded from its export, over symbolic documents; cleaning twice against once; erasing apart against together.",
  oracle="the library itself (a differential property): both documents, image references and errors must agree.",
  why="hidden state shows only in sequences of operations."),
"C26": dict(
  how="pruning operations of `SpineGraphContainer` (leafs and heads of a type, slots and attachments by name) on the graphs of symbolic documents, one or two in a row.",
  oracle="a fixpoint over the document's own references: nodes of the type without an edge on that side, minus kept names; every other node with its data and edges.",
  why="chains becoming loose in several rounds, kept names, shared nodes and names that look like ids."),
"C27": dict(
  how="the same calls twice in one path, each from the library's imported state: sets iterated in ascending order against any order (symbolic permutation); with and without other symbolic calls before.",
  oracle="the library itself (a differential property); in replays two processes with different PYTHONHASHSEED, or a fresh process.",
  why="orders that leak out of sets and caches keyed too coarsely show only for some hash seeds or some pairs of inputs."),
"C28": dict(
  how="loading, every operation, pruning and graph questions on documents whose references are symbolic choices among existing, missing, later, own and mutual names.",
  oracle="the run ends (20 s in the engine, 15 s on the real code; exhausting the recursion limit counts as not ending) and the given document is unchanged.",
  why="endless loops and recursions need circular references, which no exported document has."),
}
