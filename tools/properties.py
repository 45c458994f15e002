#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the file is committed; this keeps it readable to edit)."""
import json, os

T = "src/level2/trait_impls.rs"
TR = "src/level2/traits.rs"
N = "src/level2/node_impl.rs"
NS = "src/level2/ext/namespaced.rs"
RC = "src/shared/rc_cell.rs"
TX = "src/shared/text.rs"
D = "src/shared/display.rs"
P = "src/parser/mod.rs"
NM = "src/shared/name.rs"
ER = "src/level2/entity_resolver.rs"

props = []

def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    props.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

LINKS = [("child list", "ordered strong references to the children", N + " NodeImpl.i_child_nodes"),
         ("parent link", "weak reference to the parent", N + " NodeImpl.i_parent_node")]
ATTRS = [("attribute map", "name to attribute node, strong", N + " Extension::Element.i_attributes"),
         ("owner element", "weak reference from an attribute to its element", N + " Extension::Attribute.i_owner_element")]

p("T01", "Tree links always agree with each other",
  "After every operation, whether it succeeded, failed or was cut short, every node listed as a child names that node's holder as its parent, occurs exactly once in exactly one child list, and its previous and next siblings and the parent's first and last child agree with that list. No node is ever its own ancestor, and every node of a tree reports the same owner document. Attributes have no parent or siblings, and an attribute listed by an element names that element as its owner.",
  ["histories", "schedules", "fault_sequences"],
  "every interleaved history of edits, moves, clones, drops and failures by any number of clients sharing the documents",
  "The tests build a handful of small trees by appending; the links are maintained by hand at several sites, so a disagreement needs a particular sequence (move within the same parent, replace by a sibling, refused edit, dropped ancestor) to show.",
  [T, N, RC], [("insert_before/replace_child/remove_child maintain both directions", T + " impl Node for RefNode"),
               ("set_attribute_node/remove_attribute_node keep the owner", T + " impl Element for RefNode")],
  ["parent_node, child_nodes, first_child, last_child, previous_sibling, next_sibling, attributes, owner_element, owner_document"], LINKS)

p("T02", "A structural edit produces exactly the tree that was asked for",
  "Appending, inserting before a sibling, replacing or removing a child leaves exactly the child order the request describes, a node that was already somewhere else is moved and not copied, nothing else in any tree changes, and the node the interface promises is returned. This holds for every legal combination, including moves within one parent, inserting a node before itself and replacing a child by one of its siblings.",
  ["histories", "schedules"],
  "every history of structural edits by interleaved clients on trees of any shape",
  "The tests append and insert into fresh parents; order mistakes appear only when the moved node already sits before the target in the same list, or when several edits are combined.",
  [T], [("position computed after removal from the old parent", T + " Node::insert_before"),
        ("replace as remove followed by insert before the next sibling", T + " Node::replace_child")],
  ["results of the edits, child_nodes of every live node after every step"], LINKS)

p("T03", "Illegal edits are refused with the documented kind of error",
  "An edit that would put a node below itself or a descendant, give a parent a kind of child it cannot have, give a document a second root, use a node of another document, name a reference or old node that is not there, take an attribute that belongs to another element, repeat an ID, or use a name that XML or its namespace rules forbid is always refused, with the error kind documented for that reason. An edit for which no such reason exists is never refused.",
  ["histories", "schedules", "inputs"],
  "every state reachable by interleaved clients and every choice of arguments for the next edit in that state",
  "The tests try each kind of illegal child once on a fresh document; whether an edit is legal depends on the whole history (who is whose ancestor by now, which document is still alive, which root has been removed).",
  [T], [("child matrix", T + " is_child_allowed"), ("ancestor check", T + " is_self_or_ancestor"),
        ("document check", T + " check_same_document"), ("id check", T + " check_unique_id"), ("name check", "src/shared/name.rs Name::check_part, check_namespace_uri; src/shared/text.rs is_xml_name")],
  ["Ok or the Error variant of every mutating call"])

p("T04", "An edit that fails changes nothing",
  "When an edit of the tree, of attributes or of character data returns an error, or is cut short because reporting a diagnostic unwinds, every node of every document is exactly as it was before the call. Afterwards all nodes stay fully usable.",
  ["histories", "fault_sequences", "crash_points"],
  "every state reachable by interleaved clients, every refused edit in that state and every diagnostic inside it at which the call is cut short",
  "The tests check the returned error of a few refused edits and never look at the tree afterwards, nor interrupt an operation midway.",
  [T, NS], [("all checks precede the first change", T + " check_child_allowed, check_same_document, check_unique_id"),
            ("diagnostics", "log::warn! sites in " + T)],
  ["complete comparison of all live nodes before and after the failed call"])

p("R01", "A node can be used as what its type says, and as nothing else",
  "Type and name of a node never change after its creation, whatever is done to it and however that ends. At every moment exactly the tests and conversions that belong to its type succeed, all others are refused as an invalid state, and a refused one has no effect. The answers all nodes give follow the type as well: only elements have attributes, only attributes, character data, instructions and internal entities have a value, and the kinds that are leaves never have children.",
  ["histories", "schedules", "fault_sequences"],
  "every node of every kind, those made by cloning, splitting and by documents that are gone included, at every point of an interleaved history with failures",
  "The tests convert freshly created nodes to the one type they were created as; no test tries the other types, and none does so after a node has been moved, emptied, cloned, refused or orphaned.",
  ["src/level2/convert.rs", "src/level2/ext/convert.rs", "src/shared/convert.rs", N, TR],
  [("the is_ and as_ functions", "src/level2/convert.rs, src/level2/ext/convert.rs"), ("node type and extension", N + " NodeImpl")],
  ["is_*, as_*, as_*_mut, node_type, node_name, node_value, attributes, child_nodes"])

p("A01", "Attributes of an element behave like a map by name",
  "Reading an attribute by qualified name or by namespace and local name gives the value most recently set under that name, setting one replaces the attribute with the same qualified name or the same namespace and local name and no other, removing one makes exactly it disappear, and the listing, the presence tests, both kinds of look-up and the value and node value of the attribute itself agree with each other. This does not depend on the hash seed of the process or on the order in which attributes were set.",
  ["histories", "schedules", "configurations"],
  "every history of attribute operations with plain and namespaced names that collide in prefix, local name or namespace, under every hash seed",
  "The tests set two or three distinct names once; collisions between prefixed, namespaced and plain spellings, and behaviour that depends on hash order, need long histories under many hash seeds.",
  [T, NM, TX], [("attribute map keyed by full name", T + " set_attribute_node/get_attribute_node/get_attribute_node_ns"),
                ("replacement rule", T + " is_same_attribute"),
                ("value computed from the text below the attribute", T + " Attribute::value")],
  ["get_attribute, get_attribute_node, has_attribute and their namespace forms, attributes, value"], ATTRS)

p("A02", "An attribute node belongs to one element at a time",
  "An attribute node that is in use by an element cannot be taken by another element until it has been removed or replaced there, and setting it again on its own element changes nothing. A removed or replaced attribute has no owner, keeps its value, is no longer found on the element, and can be used again on any element of its document.",
  ["histories", "schedules"],
  "every history of clients passing attribute nodes between elements, replacing and removing them, by name and by node",
  "No test passes one attribute node through two elements or removes one that was replaced.",
  [T], [("in-use check and owner update", T + " set_attribute_node"), ("owner cleared", T + " remove_attribute_node")],
  ["owner_element, results of set_attribute_node and remove_attribute_node"], ATTRS)

p("I01", "ID look-up finds the element that carries the ID, and only that one",
  "Looking up an ID in a document gives the element whose ID attribute was set to that value and still has it, and nothing once the attribute has been removed, replaced or given another value or once no such element is alive. An element is never found under an ID it does not carry at that moment, and a document never accepts a value that a different live element already holds through a set attribute; which attributes are IDs follows the options of the document.",
  ["histories", "schedules", "configurations"],
  "every interleaved history of setting, changing, removing and re-using IDs, moving and dropping elements, under both ID options",
  "The tests look up one ID directly after setting it; stale entries need removal, replacement, change of value or death of the element between the setting and the look-up.",
  [T, NM], [("ID index of the document", N + " Extension::Document.i_id_map"),
            ("index maintenance", T + " index_attribute/unindex_attribute/remove_stale_ids"),
            ("which attributes are IDs", NM + " Name::is_id_attribute")],
  ["get_element_by_id, result of setting an ID"])

p("N01", "Namespace look-ups follow the declarations in scope",
  "A prefix resolves to the namespace declared for it on the nearest enclosing element that declares it, and resolving a namespace to a prefix gives a prefix that resolves back to this namespace from the same element, or none only if there is none. Setting, changing and removing a declaration and moving an element into another scope take effect at once, and nothing is resolved in documents created without namespace support.",
  ["histories", "schedules", "configurations"],
  "every interleaved history of declaring, re-declaring and removing prefixes on nested elements and moving those elements, with and without namespace support, under every hash seed",
  "The unit tests insert mappings by hand into one fixed three-level tree and never remove, shadow or move.",
  [NS, T], [("mapping store of the element", N + " Extension::Element.i_namespaces"),
            ("walk to the parents", NS + " resolve_namespace/resolve_prefix"),
            ("maintenance from attributes", T + " index_attribute/unindex_attribute")],
  ["contains_mapping, get_namespace, resolve_namespace, get_prefix, resolve_prefix, contains_mapped_namespace"])

p("C01", "Character data edits behave like edits of one string",
  "Appending, inserting, deleting, replacing, extracting and setting character data have the effect of the same edit on the string the node holds, counting offsets in bytes of its unescaped content; a range that runs past the end is cut at the end. An offset past the end or inside a character is refused with an index error and leaves the data alone, unless there is nothing to extract, insert or delete; and no edit changes any other node. Setting the value of a node of a kind that is defined to have none has no effect.",
  ["histories", "schedules", "inputs"],
  "every history of edits by interleaved clients on text, comment and CDATA nodes with data of any length, including multi-byte characters, and any offsets and counts up to the largest integer",
  "The tests use ASCII strings and small in-range offsets on one node.",
  [T, TR], [("range check", T + " data_range"), ("edits", T + " impl CharacterData for RefNode")],
  ["node_value, data, length, substring_data, results of the edits"])

p("C02", "Splitting text conserves the text",
  "Splitting a text or CDATA node at a valid offset keeps the content before the offset in the node and puts the content from the offset on into a new node of the same kind, which becomes its next sibling when it has a parent and stays detached otherwise, so that the concatenation is what it was before. An offset inside a character is refused without any change, one past the end moves nothing.",
  ["histories", "schedules", "inputs"],
  "every history in which interleaved clients split, edit, merge and move text nodes at every position below elements, fragments and attributes",
  "The tests split one ASCII text three times in a fixed place; content with characters that are escaped, multi-byte characters and nodes without siblings or parents are not reached.",
  [T], [("split", T + " Text::split")], ["node_value of both nodes, child_nodes of the parent, kind and owner document of the new node"])

p("C03", "Normalising merges text and changes nothing else",
  "After normalising a node no text node anywhere in the sub-tree below it, attributes included, is empty or directly follows another text node, and the character content between any two other nodes is the same string as before. All other nodes, their order, and everything outside the sub-tree are untouched, and merged-away nodes are detached.",
  ["histories", "schedules"],
  "every tree shape with runs of empty, adjacent and separated text nodes at any depth that interleaved clients can produce",
  "The one existing test merges the direct children of one element.",
  [T], [("normalize", T + " Node::normalize")], ["child_nodes and node_value in the whole sub-tree"])

p("K01", "A clone is equal to the original and shares nothing with it",
  "A clone has the kind, name, data and attributes of the original and, if deep, copies of its children in the same order; it has no parent, and its parts are linked to each other and to the same document, or to the clone if that is a document. Cloning changes nothing in the original, and no later edit of either one is visible in the other.",
  ["histories", "schedules"],
  "every node, documents included, in every state, cloned at any point of an interleaved history and edited afterwards on both sides",
  "The tests clone one attribute and one element and do not edit afterwards; sharing shows only through later edits.",
  [T, N], [("clone_node", T + " Node::clone_node"), ("copy of one node", N + " NodeImpl::clone_node")],
  ["complete comparison of original and clone, directly after cloning and after every later step"])

p("L01", "A held node stays usable whatever else is dropped",
  "While a client holds a node, the node, its attributes and everything below it keep their content and links and every operation on them still works without panicking, even after its document, parent, siblings or the other clients' references to it have been dropped; links to what is gone read as absent. Dropping references changes nothing else for anyone.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every history in which clients crash or drop references to any node, parent or document at any point between and during other clients' operations",
  "Every existing test keeps the document alive to its end.",
  [RC, T, N], [("strong links downwards, weak links upwards", N + " NodeImpl"), ("weak links that are gone read as absent", T)],
  ["all read and edit operations on the surviving nodes"])

p("L02", "Nodes nobody can reach any more are freed",
  "A node is released as soon as no client holds it, one of its ancestors, its owning element or its document while it is part of that document; in particular clones, removed, replaced, merged or refused nodes and nodes of failed operations leave no reference behind. When all clients have gone, every node has been freed.",
  ["histories", "schedules", "crash_points", "fault_sequences"],
  "every history of edits, refused edits, cut-short operations and client crashes",
  "No test looks at memory; a reference cycle or forgotten reference is invisible to value assertions.",
  [RC, N, T], [("only downward links are strong", N + " NodeImpl"), ("id index is weak", N + " Extension::Document.i_id_map")],
  ["liveness of every node ever created, through weak references"])

p("Q01", "Element queries return every match once, in document order",
  "Searching a document or an element by tag name, or by namespace and local name, with or without wildcards, returns exactly the matching elements of the document, or the matching descendants of the element, at that moment, each once and in document order. The document element is the one element child of the document whatever else surrounds it, and no query changes anything.",
  ["histories", "schedules"],
  "every tree that interleaved clients can produce by moving, removing and re-inserting elements between the queries",
  "The tests query one small fixed document.",
  [T], [("recursive search", T + " get_elements_by_tag_name(_ns)"), ("matching", T + " tag_name_match/namespaced_name_match"),
        ("document element", T + " Document::document_element")],
  ["get_elements_by_tag_name, get_elements_by_tag_name_ns, document_element"])

p("S01", "A failing output is reported and does no harm",
  "When the destination of a serialisation fails at any point, the serialisation reports an error, has written exactly a prefix of the complete output, does not write any more after the failure, and leaves every node as it was. Serialising again to a working destination gives the complete output.",
  ["fault_sequences", "crash_points", "histories"],
  "every document state reachable by interleaved clients and every write at which the destination fails or fills up",
  "The tests only format into strings, which cannot fail.",
  [D], [("error propagation", D + " fmt_*")], ["result of the write, bytes received by the destination, nodes afterwards"])

p("S02", "Serialising tolerates edits made while it is under way",
  "A client may edit the tree from inside the destination that receives the output: no such edit panics or is refused for this reason, each has its full and normal effect, and the output stays balanced markup. Every node whose place below the serialised node is not touched meanwhile is written exactly once, inside its own ancestors and in order, with an attribute or data value it had during the serialisation.",
  ["schedules", "histories"],
  "every interleaving of one serialisation with edits of other clients at the points where output is handed over",
  "The tests never run anything between two writes of one serialisation; the outcome depends on which node is being written when the edit happens.",
  [D, T], [("no borrow is held while writing", D + " fmt_*"), ("child and attribute lists are read as copies", T + " child_nodes/attributes")],
  ["output text, results of the edits, all nodes afterwards"])

p("S03", "Serialised text says exactly what the tree holds",
  "The text of a node contains, in order and correctly nested, every element with its name and all its attributes with their values, and all character data, comments, processing instructions and references below it, with all markup characters of data and values escaped, and nothing else; only the order of attributes within a tag is free. This holds whatever history produced the tree and whatever the hash seed of the process.",
  ["histories", "schedules", "configurations"],
  "every tree reachable by interleaved clients, with data and values containing every markup character, under every hash seed",
  "The tests compare a few fixed strings with at most one attribute per element, because the order of attributes changes from process to process.",
  [D, TX, TR], [("formatting", D + " fmt_*"), ("escaping", TX + " escape")], ["output read back by an independent reader and compared with the model of the tree"])

p("D01", "The same history gives the same answers in every process",
  "Running the same sequence of operations again, in another process with another hash seed, after unrelated work, or with diagnostics switched on, off or rendered, gives the same result for every operation and the same final trees. Only the order in which the attributes of one element are listed or written may differ.",
  ["configurations", "histories", "schedules"],
  "every interleaved history, executed under different hash seeds, diagnostic levels and amounts of preceding unrelated work",
  "Hash seeds are random per process and a test run samples one; a dependence shows only as a test that fails now and then.",
  [T, NS], [("hash maps", N + " Extension"), ("look-ups by iteration", T + " get_attribute_node, get_attribute_node_ns, has_attribute_ns; " + NS + " get_prefix")],
  ["event log of all results and canonical form of all trees, compared between executions"])

p("X01", "Documents are isolated from each other",
  "An operation on nodes of one document never changes what can be observed in another document, and a node can never become part of a document, element or attribute of a different document than the one that created it. This also holds for a client that records diagnostics in a document of its own while the diagnosed operation on another document is still running.",
  ["histories", "schedules"],
  "every interleaving of clients working on several documents with the same names and IDs, including re-entrant work inside diagnostics",
  "The tests use two documents only to check one refused append.",
  [T], [("document check", T + " check_same_document"), ("per document index and options", N + " Extension::Document")],
  ["all nodes of all other documents after every operation"])

p("P01", "Reading does not depend on how the input arrives",
  "Reading a byte sequence gives the same document, or an error, however it is divided into chunks and however often delivery is interrupted and resumed, and the same as reading it from memory in one piece.",
  ["schedules", "fault_sequences", "inputs"],
  "every division of the input into chunks, down to single bytes, and every placement of interrupted reads, for valid and invalid input",
  "All parser tests read from a string in memory, that is from one chunk.",
  [P], [("incremental reading through a reused buffer", P + " inner_read/document/element")], ["read_reader against read_xml"])

p("P02", "An input error is reported, never swallowed",
  "When the source of the input fails while a document is being read, reading ends with an error at once: it neither returns a document nor panics nor keeps asking the failed source. No later read from another source is affected.",
  ["fault_sequences", "crash_points"],
  "every position in the input and every kind of input error, in the prolog, inside markup, between nodes and after the root element",
  "No test uses a source that can fail.",
  [P], [("error propagation", P + " Event match arms, Error::QuickXMLError")], ["result of read_reader, requests made to the source after the failure"])

p("P03", "Truncated input is never taken for a document",
  "If the input ends before the end of its root element, or inside any markup before or after it, reading returns an error. If it ends in complete markup after the root element, the document read contains everything up to there.",
  ["crash_points", "fault_sequences", "inputs"],
  "every length at which the input can end, for generated documents with all kinds of nodes in prolog, content and epilog, delivered in any chunks",
  "The tests contain a few malformed strings but no systematic truncation.",
  [P], [("end of input handling", P + " Event::Eof arms of document and element")], ["result of read_reader for every prefix"])

p("P04", "Damaged input never panics and never gives a broken tree",
  "Whatever bytes arrive, reading ends after consuming at most the whole input, either with an error or with a document that has exactly one root element, consistent links, legal children, and no two attributes of the same name, and that can be read completely and written without panicking. Reading the same bytes again gives the same result.",
  ["fault_sequences", "inputs"],
  "every sequence of bit flips, lost, doubled and swapped blocks, insertions of markup fragments and invalid encodings applied to generated documents",
  "The tests contain well-formed documents and a handful of malformed ones.",
  [P, T], [("errors instead of panics", P), ("tree invariants through the public editing operations", P + " handle_*")],
  ["result of read_reader, complete traversal and serialisation of an accepted document"])

p("P05", "A saved document reads back, and a torn save is noticed",
  "A document whose complete text reached the storage reads back as a document that says the same: same elements, attribute values, text, comments and instructions in the same order. If a crash or a full disk left only a part of the text, reading it gives an error unless the whole root element is there, and then exactly what was written up to the crash.",
  ["crash_points", "fault_sequences", "histories"],
  "every document reachable by interleaved editing with well-formed content, every point at which saving is cut short, and any chunks in which it is read back",
  "No test writes a document and reads it again.",
  [D, P, TX], [("escaping on output", TX + " escape"), ("unescaping on input", P + " make_text, handle_start")],
  ["canonical form of the document read back against the model of the one saved"])

p("P06", "Reading gives the document that the text describes",
  "Reading well-formed text gives its elements with their names and attributes, their text with references replaced and each block of it in one node, comments, CDATA sections and processing instructions, in the order and nesting of the text, and the version, encoding and standalone choice of its declaration. This does not depend on optional white space, the choice of quotes, references or empty-element tags, or the chunks in which it arrives. In the document that is read, elements are found by their names and by their xml:id.",
  ["inputs", "schedules"],
  "every generated document in every spelling, delivered in any chunks, leading and trailing white space of text and document type declarations excepted",
  "The tests mostly check that reading succeeds and look at no content, or at one or two nodes.",
  [P], [("event handling", P + " document/element/handle_*/make_*")], ["canonical form of the document read against the generated one"])

p("P07", "Text that is not a document is refused",
  "Reading a text whose structure is broken gives an error and never a document or a panic: text, CDATA or a second element outside the root element, no root element, end tags that are missing, extra or of another name, attributes without a value, quotes or white space between them, with < in their value, or given twice, names XML forbids, references to undefined entities, to no character at all, to NUL, to surrogates or beyond Unicode, unfinished markup, -- in comments, ]]> in text, and XML declarations that are not first, or without a version, of an unknown version, with a malformed encoding name or standalone choice, or with repeated, unknown or misplaced items. This does not depend on where in which document the damage is, nor on the chunks in which it arrives.",
  ["fault_sequences", "inputs"],
  "every place of every generated document at which one such fault can occur, in every spelling and delivery",
  "Every parser test reads a well-formed document except for a handful of strings.",
  [P], [("refusals", P + " document/element event arms, make_decl, handle_start, make_text")], ["result of read_reader and read_xml"])

p("V01", "Names are accepted exactly when they are legal XML names",
  "Creating a node succeeds exactly for the names XML and its namespace rules allow, and fails with the documented kind of error for every other string.",
  ["inputs"], "every string as a qualified name and every namespace",
  "The tests sample a few dozen characters.",
  [NM, TX], [("name check", NM + " Name::from_str/new_ns, " + TX + " is_xml_name")], ["results of the create operations"])

p("V02", "Declarations, options and features report what was set",
  "The XML declaration, processing options and feature queries return exactly what was set or what the documentation lists, and their text forms follow the XML grammar.",
  ["inputs"], "every combination of version, encoding name, standalone choice and option flags",
  "The tests sample some combinations.",
  ["src/level2/ext/decl.rs", "src/level2/ext/options.rs", "src/level2/dom_impl.rs"], [("formatting", "src/level2/ext/decl.rs Display")], ["getters and text forms"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in props:
        f.write(json.dumps(x) + "\n")
print(len(props), "properties")
