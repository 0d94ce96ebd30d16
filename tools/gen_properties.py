#!/usr/bin/env python3
"""Writes properties.jsonl from the table below (kept as code so that it stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in (state or [])],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": observe or [], "hook_needed": None}})
O = "crates/oxvg_optimiser/src/jobs/"
A = "crates/oxvg_ast/src/"
C = "crates/oxvg_collections/src/"
PA = "crates/oxvg_path/src/"

p("C01", "Optimising a static document never changes what it paints",
  "For every static SVG document, running the default preset, the safe preset, or any selection of the jobs documented as never visually changing the document yields a document that paints the same picture: at every point away from shape edges the composited colour is the same, up to the configured numeric precision. This covers geometry, transforms, paint and stroke properties, inheritance, visibility and display, groups, use/defs references, gradients, clip paths and masks, and paint order.",
  ["inputs", "configurations"],
  "All static documents built from the basic shapes, paths, groups, use/defs, presentation attributes, inline style and style sheets; every subset of the visually-neutral jobs.",
  "Each job has a handful of snapshot inputs that pin one output text; nothing relates the picture before to the picture after, and interactions between ~50 jobs (order and combination) are untested.",
  [O, "crates/oxvg_optimiser/src/utils", PA + "optimize.rs"],
  [("per-job safety conditions (computed style checks, id/reference checks, precision)", O), ("job order of the presets", O + "mod.rs")],
  ["rendered colour at sample points, computed by an independent interpreter of source and output"])

p("C02", "The optimiser is total, repeatable and always emits a well-formed document",
  "For every document the parser accepts and every valid job configuration, optimising neither panics nor runs away, and the serialised result is a well-formed, namespace-well-formed document that the parser accepts again with an svg root. Optimising the same text with the same configuration always gives byte-identical output.",
  ["inputs", "configurations"],
  "All parseable documents, including odd ones (foreign namespaces, unknown elements, malformed attribute values, non-ASCII text, comments, processing instructions, deep nesting), and all combinations of jobs and job parameters.",
  "Snapshot tests use tidy inputs and one configuration each; totality and repeatability are statements about all inputs, and hash-order dependence never shows in a single run.",
  [O, A + "serialize.rs", A + "visitor.rs", C, "crates/oxvg_parse/src/lib.rs"],
  [("fallible parsing of values into unparsed variants", C + "attribute.rs"), ("writer escaping and namespace handling", A + "serialize.rs")],
  ["serialised output text"])

p("C03", "Parsing and serialising a document preserves its information set",
  "For every well-formed document without a document type, parsing it and serialising it again without whitespace changes gives a document with the same tree: the same elements, attributes, namespaces, text, comments and processing instructions in the same order, with attribute values and style sheets equal up to equivalent spelling. Serialising is stable: doing it twice gives the same text as doing it once.",
  ["inputs"],
  "All well-formed documents: nested namespaces and prefixes, entities and character references, CDATA, comments, processing instructions, mixed content, non-ASCII names and text.",
  "The existing tests check a few fixed documents; escaping and namespace scoping bugs need particular combinations of characters, prefixes and nesting.",
  [A + "parse/roxmltree.rs", A + "serialize.rs", A + "xmlwriter.rs", C + "name.rs", C + "atom.rs"],
  [("name and prefix resolution", A + "parse/roxmltree.rs"), ("escaping in the writer", A + "xmlwriter.rs")],
  ["independent parse of source text and of output text"])

p("C04", "Path data is read by the SVG grammar and written without changing its meaning",
  "For every path-data string, parsing yields exactly the command sequence the SVG 2 grammar prescribes (with the valid prefix kept on error), and writing a parsed path gives text that a grammar-following reader turns back into the same commands with the same numbers. Numbers are read to single-precision accuracy and written minified but equal.",
  ["inputs"],
  "All strings over the path alphabet: every command, implicit repetition, omitted separators, signs, exponents, flags run together, trailing garbage; and all finite command sequences for writing.",
  "Separator elision and implicit-command rules depend on pairs and triples of neighbouring tokens; fixed examples cover few of them.",
  [PA + "parser.rs", PA + "format.rs", PA + "paths/svg/command.rs", "crates/oxvg_parse/src/lib.rs"],
  [("path parser", PA + "parser.rs"), ("space elision rules", PA + "format.rs")],
  ["Path::parse_string, Display of Path"])

p("C05", "Path optimisation preserves the drawn geometry",
  "For every path, simplifying or optimising it with any combination of safe options yields a path that traces the same curve: every subpath follows the original, in order and direction, within the configured tolerance and the rounding of the written numbers. Subpaths stay open or closed, except that one ending at its own start may be closed; options documented as unsafe for strokes keep the filled outline.",
  ["inputs", "configurations"],
  "All paths of lines, quadratic, cubic, smooth and arc commands, absolute and relative, open, closed and multi-subpath; all safe option sets; precisions 0 to 6.",
  "The rewriting rules (curve to line, curve to arc, relative/absolute choice, shorthand choice, merged lines, close elision) interact; the fixed tests compare text with recorded text rather than geometry with geometry.",
  [PA + "optimize.rs", PA + "paths/segment.rs", PA + "paths/segment/convert.rs", PA + "paths/segment/simplify.rs", PA + "geometry", O + "convert_path_data.rs"],
  [("tolerance-checked rewriting", PA + "optimize.rs"), ("error-compensated rounding", PA + "paths/segment.rs")],
  ["independent flattening of source and result path data"])

p("C06", "Boolean path operations compute the set operation on the filled regions",
  "For every pair of paths, union, intersection, difference and exclusive-or give a path whose filled region is that set operation of the two filled regions: a point away from every outline is inside the result exactly when the operation says so. The reported overlap test between two paths never denies an overlap that exists.",
  ["inputs"],
  "Pairs of closed paths: polygons, curves and arcs, self-intersecting, nested, holes, shared edges, identical shapes, disjoint shapes.",
  "Region arithmetic fails on particular degeneracies (shared edges, nested holes, touching curves) that a few examples cannot represent.",
  [PA + "paths/bool.rs", PA + "algorithm", PA + "gjk_intersection.rs", "crates/oxvg_actions/src/actions/manipulate/path.rs"],
  [("overlay on flattened contours", PA + "paths/bool.rs")],
  ["point membership of operands and result by winding number"])

p("C07", "Typed attribute values keep their meaning when parsed and printed",
  "For every attribute whose value the library parses (numbers, lengths, colours, lists of numbers, points, view boxes, transforms, paints, urls, keywords, animation timings), printing the parsed value, minified or not, gives text with the same meaning, and text that is not a valid value is kept verbatim. Printing is stable under a second parse and print.",
  ["inputs"],
  "All values of the attribute grammars, with every unit, sign, exponent, separator and keyword spelling; also near-valid and invalid values.",
  "There are hundreds of attribute and value-type combinations; the unit tests cover a few values of a few types.",
  [C + "attribute.rs", C + "attribute", "crates/oxvg_serialize/src", "crates/oxvg_parse/src"],
  [("value parsers and printers", C + "attribute")],
  ["attribute text before and after, read by independent value parsers"])

p("C08", "Tree edits on the document behave like edits on an ordered tree",
  "After any sequence of tree edits (append, prepend, insert before or after, replace, remove, flatten, retain, sort, clone, rename), the document equals what the same edits give on a plain ordered tree. Parent, sibling and first/last-child links stay mutually consistent, every node has at most one parent, and traversals visit exactly the tree in document order.",
  ["histories"],
  "All sequences of tree edits on small documents, including moving nodes that are already attached, edits around first and last children and in nested content.",
  "Link-structure bugs appear only after particular edit histories; the tests exercise single edits.",
  [A + "node.rs", A + "element.rs"],
  [("linked-cell node structure", A + "node.rs")],
  ["tree shape and links after each step"],
  [("parent/first_child/last_child/next_sibling/previous_sibling", "tree links", A + "node.rs")])

p("C09", "Attribute maps and class lists behave as ordered maps and ordered sets",
  "After any sequence of attribute edits, an element has exactly one attribute per qualified name, with the last written value, in insertion order (or the requested sort order), and lookups by name agree with iteration. After any sequence of class-list edits, the class attribute is the ordered set of tokens those edits imply.",
  ["histories"],
  "All sequences of set, get, remove, retain, sort and class-list add, remove, toggle, replace over colliding and prefixed names.",
  "Collisions between names, prefixes and aliases and between class-list edits need histories, not single calls.",
  [A + "attribute.rs", A + "class_list.rs"],
  [("attribute vector with name lookup", A + "attribute.rs"), ("class list view over the class attribute", A + "class_list.rs")],
  ["attribute list and class attribute after each step"])

p("C10", "CSS selectors match exactly the elements they describe",
  "For every document and supported selector, selecting returns exactly the elements the selector describes, each once and in the documented breadth-first order. This covers type, universal, class, id and attribute selectors, all combinators, selector lists, negation and structural pseudo-classes.",
  ["inputs"],
  "All small documents and all selectors of the supported grammar.",
  "Matching depends on the combination of tree shape and selector; tests use fixed pairs.",
  [A + "selectors.rs"],
  [("selector engine adapter", A + "selectors.rs")],
  ["set of selected elements, compared with a naive matcher"])

p("C11", "Computed style follows the CSS cascade",
  "For every document, the computed value of a presentation property on an element is the one the CSS cascade gives: importance, then inline style, then style-sheet rules by specificity and order, then presentation attributes, then inheritance for inherited properties only. A value that depends on a rule inside a conditional at-rule is reported as dynamic rather than static.",
  ["inputs"],
  "All small documents with nested groups, presentation attributes, inline styles and style sheets with competing rules.",
  "The cascade is a total order over many competing declarations; tests contain a few fixed competitions.",
  [A + "style.rs"],
  [("cascade construction", A + "style.rs")],
  ["computed value of each property for each element, compared with a naive cascade"])

p("C12", "Style-sheet rewriting leaves every element's computed style unchanged",
  "Merging, inlining, minifying or converting style sheets and moving or collapsing shared attributes between groups and children never changes the cascaded and inherited value of any presentation property on any painted element. This holds also when rules compete by specificity, order, importance or media condition.",
  ["inputs", "configurations"],
  "All small documents with style elements, inline style and presentation attributes, for each of the style-related jobs alone and combined with any parameters.",
  "Which declaration wins depends on the whole set of competing rules; snapshot tests pin the text for a few sheets.",
  [O + "merge_styles.rs", O + "inline_styles.rs", O + "minify_styles.rs", O + "convert_style_to_attrs.rs", O + "move_elems_attrs_to_group.rs", O + "move_group_attrs_to_elems.rs", O + "collapse_groups.rs", O + "remove_non_inheritable_group_attrs.rs", O + "remove_unknowns_and_defaults.rs"],
  [("specificity-ordered inlining", O + "inline_styles.rs"), ("used-selector analysis", O + "minify_styles.rs")],
  ["computed style of marked elements before and after, by an independent cascade"])

p("C13", "Transform rewriting preserves the coordinate mapping",
  "For every transform list, shortening, merging or rounding it, and applying it to path coordinates, preserves the coordinate mapping it denotes up to the configured precision. Parsing a transform list yields the product of its functions exactly as SVG defines it.",
  ["inputs", "configurations"],
  "All transform lists over translate, scale, rotate (with and without centre), skewX, skewY and matrix, with any separators; all precisions; paths with every command kind.",
  "Decomposition of matrices has many branches selected by numeric conditions; the fixtures hit a few.",
  [C + "attribute/transform.rs", O + "convert_transform.rs", O + "apply_transforms.rs"],
  [("matrix decomposition with precision checks", C + "attribute/transform.rs"), ("path coordinate transformation", O + "apply_transforms.rs")],
  ["matrix product of the attribute text, transformed path points"])

p("C14", "Id and reference rewriting keeps every reference on its original target",
  "When ids are minified, removed, prefixed or deduplicated, or references are rewritten (href, url() in attributes and style sheets, id selectors, animation begin/end), every reference that resolved before still resolves to the same element, ids stay unique, and ids the configuration preserves stay unchanged. References that did not resolve are not made to resolve.",
  ["inputs", "configurations"],
  "All documents with any number of ids and any mix of reference kinds; all preserve, prefix, force, remove and minify settings.",
  "Collisions between generated and existing ids and between reference syntaxes need many ids and mixed kinds; tests have few of each.",
  [O + "cleanup_ids.rs", O + "prefix_ids.rs", O + "remove_xlink.rs", O + "reuse_paths.rs", O + "convert_one_stop_gradients.rs", O + "remove_useless_defs.rs"],
  [("id generator and reference map", O + "cleanup_ids.rs")],
  ["reference graph before and after, by element identity"])

p("C15", "Removal and ordering jobs change exactly what they are configured to change",
  "Each job that removes, adds or orders parts of a document (comments, metadata, titles, descriptions, scripts, style elements, raster images, editor data, attributes, elements by selector, id or class, dimensions, view boxes, namespaces, processing instructions, attribute order, defs order) changes exactly the parts its documentation and parameters name. Everything else in the document is left the same and in the same order.",
  ["inputs", "configurations"],
  "All documents and all parameters of those jobs (regular expressions, selectors, separators, preserve lists).",
  "Exactness has two directions, nothing missed and nothing else touched, over all sibling arrangements and parameter values; snapshots fix single documents.",
  [O],
  [("per-job visitor", O), ("node removal", A + "node.rs")],
  ["information set before and after, compared with a specification-level edit of the source tree"])

p("C16", "Editing actions have exactly their documented effect",
  "For every document and sequence of editing actions (select, select more, deselect, set attribute, toggle class, set style, translate, scale, rotate, skew, matrix, insert, path union, intersection, subtraction, exclusion), each action changes exactly the selected elements in the way its specification says. Everything not selected, and everything an action does not mention, stays the same.",
  ["histories"],
  "All sequences of actions with generated arguments on small documents.",
  "Effects depend on the selection built by earlier actions; the tests apply one or two actions to one document.",
  ["crates/oxvg_actions/src/actions.rs", "crates/oxvg_actions/src/actions/manipulate.rs", "crates/oxvg_actions/src/actions/structure.rs", "crates/oxvg_actions/src/state.rs"],
  [("actor dispatch over the selection", "crates/oxvg_actions/src/actions.rs")],
  ["document text after each action, compared with a model"])

p("C17", "Editing sessions survive being embedded, saved and reloaded",
  "For every sequence of editing actions, the history and selection derived from the session equal the actions dispatched and the elements selected, the embedded state never alters the drawing itself, and saving, re-parsing and reloading the document at any point gives a session with the same history, selection and document that continues identically. Forgetting removes the embedded state completely.",
  ["histories", "crash_points"],
  "All action sequences, cut and reloaded at every point.",
  "Round trips after arbitrary histories are not covered by tests of single actions.",
  ["crates/oxvg_actions/src/state.rs", "crates/oxvg_actions/src/actions.rs", "crates/oxvg_actions/src/state.rs"],
  [("state embedded as namespaced elements", "crates/oxvg_actions/src/state.rs")],
  ["derived state, snapshot text, state after reload"],
  [("embedded state element", "history and selection", "crates/oxvg_actions/src/state.rs")])

p("C18", "Lint reports exactly the violations present, with the configured severity",
  "For every document and rule configuration, each enabled rule reports a problem for every construct it forbids and for nothing else, with the configured severity, and disabled rules report nothing. The error and warning totals match the reported problems, and linting the same text twice reports the same problems.",
  ["inputs", "configurations"],
  "All small documents (known and unknown elements and attributes, deprecated names, default values, invalid values, ids and references, namespace declarations, xlink) and all severity settings.",
  "Both missed and spurious reports depend on context (element kind, references elsewhere in the document); the tests use a fixture per rule.",
  ["crates/oxvg_lint/src"],
  [("rule visitors", "crates/oxvg_lint/src/rules")],
  ["set of reported problems, compared with an independent specification of each rule"])

p("C19", "Lint problems point at the source text they are about",
  "For every problem with a location, the location lies inside the source on character boundaries and covers exactly the element name, attribute or value the problem names. The line and column shown in a report are those of that location, whatever line endings, multi-byte characters or repeated content precede it.",
  ["inputs"],
  "All documents with repeated names, comments and text that resemble the offending construct, multi-byte text and multi-line tags.",
  "Range computation re-scans source text; it goes wrong only when look-alike text precedes the construct.",
  ["crates/oxvg_lint/src/error.rs", "crates/oxvg_lint/src/lib.rs", A + "parse/roxmltree.rs"],
  [("source ranges kept by the parser", A + "parse/roxmltree.rs")],
  ["range of each problem against the generator's own layout map"])

p("C20", "Generated JSX re-creates the source drawing",
  "For every document, the generated component is syntactically valid and, when evaluated, creates the same element tree as the source: same elements in order, same text, and every attribute under its React name with the same value. Options (ref, title, description, expanded props, dimensions, memo, export kind, runtime) change only what they document.",
  ["inputs", "configurations"],
  "All documents without foreign namespaces, with any text and attribute values including braces, quotes, entities and non-ASCII; all option combinations.",
  "Escaping into JavaScript and JSX depends on characters in names, text and style; snapshots contain tame values.",
  ["crates/oxvg_jsx/src"],
  [("tree to JSX conversion", "crates/oxvg_jsx/src/swc.rs")],
  ["element tree obtained by evaluating the emitted module with a stub runtime"])

p("C21", "Batch commands write each result to its place and touch nothing else",
  "For every directory tree and command line, the optimise, format and lint commands process exactly the SVG files the arguments select, write each result to the documented place (standard output, in place, or mirrored under the output directory), with the content the library gives for that file, regardless of thread count. No other file is created, changed or deleted, and a file that cannot be parsed is left untouched without affecting the others.",
  ["inputs", "configurations", "schedules"],
  "All small directory trees with SVG and other files, hidden and ignored entries, broken files; all flag combinations; 1 to 8 threads.",
  "The command line is covered by no more than a few tests; correct placement is a relation over whole trees.",
  ["crates/oxvg/src/walk.rs", "crates/oxvg/src/commands", "crates/oxvg/src/args.rs", "crates/oxvg/src/main.rs"],
  [("directory walk and output mapping", "crates/oxvg/src/walk.rs")],
  ["file tree before and after, standard output"])

p("C22", "Configuration selects exactly the jobs and parameters it names",
  "For every configuration, the effective job list is the base preset it extends, overlaid with the jobs and parameters it gives, minus the jobs it omits; writing a configuration out and reading it back changes nothing. A plugin list of the SVGO form enables exactly the listed plugins with their parameters.",
  ["configurations"],
  "All combinations of preset, overlaid jobs with parameters, and omissions; all SVGO plugin lists.",
  "There are more than fifty jobs and many parameters; a test of one configuration says nothing of the others.",
  [O + "mod.rs", "crates/oxvg_optimiser/src/configuration.rs", "crates/oxvg/src/config.rs"],
  [("extend/omit and serde mapping", O + "mod.rs")],
  ["serialised configuration, effect of running it"])

p("C23", "Formatting changes only insignificant whitespace",
  "For every document and every formatting mode (pretty, minified, automatic or default spacing, any indent), the formatted document has the same elements, attributes, comments and text, where text that renders (in text content elements, or under preserved space) keeps its rendered form. Scripts keep their white space, and with automatic or default spacing, formatting a formatted document again changes nothing.",
  ["inputs", "configurations"],
  "All documents with mixed content, text elements, tspans, CDATA, style and script content, xml:space; all writer options.",
  "Whitespace rules depend on element kind, nesting and neighbouring nodes; fixtures contain a few shapes.",
  [A + "serialize.rs", A + "xmlwriter.rs", "crates/oxvg/src/commands/format.rs"],
  [("whitespace policy of the writer", A + "xmlwriter.rs")],
  ["independent parse of source and of formatted text, whitespace-normalised by SVG rules"])

p("C24", "The language server's diagnostics always reflect the latest document text",
  "After any sequence of open, change, save and close notifications, the diagnostics the language server has last published for each open document are exactly the problems of linting that document's latest text, at the right line and character positions.",
  ["histories"],
  "All interleavings of notifications over several documents with full-text and ranged changes.",
  "The server is not tested over histories at all.",
  ["crates/oxvg/src/commands/lint/lsp.rs", "crates/oxvg/src/commands/lint.rs"],
  [("document store and republish on change", "crates/oxvg/src/commands/lint/lsp.rs")],
  ["published diagnostics messages"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
