#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks and properties.jsonl."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
EXPL = "exploration"
CHECKS = {
 "C01": ("property-based testing: random documents and job selections; source and output are painted by an independent SVG interpreter (cascade, geometry, paint servers, clipping, masking, markers, text tokens) and compared at sample points",
         "Searches documents of up to a few dozen elements; compares at points where the source has one colour around them. Trusts the interpreter written from SVG 2 and CSS; documents on which a job has a known finding drop that job."),
 "C02": ("fuzzing and property-based testing: odd and mutated documents with random parameters of every job; the output must exist, be read by an independent XML parser, and be the same on a second run",
         "Searches documents of up to about 70 levels with foreign elements, processing instructions, broken values and stylesheets. Trusts the roxmltree XML reader."),
 "C03": ("property-based testing: random documents in many spellings (prefixes declared, redeclared and removed, references, sections, quotes); read and written by the library, then source and output compared as trees of expanded names by an independent reader; written twice",
         "Searches documents of up to about 30 elements. Trusts a small XML reader; style sheets are compared up to white space and never hold a less-than sign."),
 "C04": ("property-based testing: grammar and mutation generators against a reference path reader, print/read round trip",
         "Searches path texts and command sequences; trusts the reference reader (written from the SVG 2 grammar) and Rust's float parser. Spellings on which SVG 1.1 and 2 differ are only checked for crashes."),
 "C05": ("property-based testing: random paths and option sets; source and optimised text are flattened by an independent path interpreter and compared by continuous Fréchet distance, subpath by subpath",
         "Searches paths of up to three subpaths of up to about ten commands with coordinates up to 50; tolerances are stated in the evidence. Trusts the interpreter written from the SVG path chapter."),
 "C06": ("property-based testing: random pairs of closed paths; membership of sample points in each operation's result compared with the set operation on their membership in the inputs, by an independent winding-number interpreter",
         "Searches pairs of paths of up to three subpaths within about 40 units; points nearer than 0.02 (straight outlines) or 0.3 (curved) to an outline are not judged."),
 "C07": ("property-based testing: grammar-generated values, valid and spoiled, for about 190 attributes; the printed value compared with the source by independent readers of every kind of value, and printed a second time",
         "Searches one value at a time, numbers up to 1e15 and lengths up to 1e6. Allows 6e-6 of a number, since numbers are printed with six significant digits, and half a step of eight bits for colours. Path data is decided under C04 and style attributes under C12."),
 "C08": ("stateful model-based property testing: random tree-edit histories compared after every edit with an ordered-tree model",
         "Searches histories of up to 30 edits over documents of up to a few dozen nodes; edits that would put a node under itself are outside the property."),
 "C09": ("stateful model-based property testing: random attribute-map and class-list histories compared after every operation with an ordered-map / ordered-set model",
         "Searches histories over one element; the model is written from the documented contract. Values are compared in the form the library prints them."),
 "C10": ("property-based testing: random documents and selectors compared with an independent selector interpreter",
         "Searches documents of up to a few dozen elements and selectors of a few compounds; trusts the interpreter written from Selectors Level 4 for the listed subset."),
 "C11": ("property-based testing: random documents with competing rules, inline style and attributes; every computed value compared with an independent cascade",
         "Searches documents of up to about a dozen elements with up to three style sheets; trusts the cascade written from CSS Cascade and the selector interpreter. Conditions are media and supports rules and media attributes."),
 "C12": ("property-based testing: random styled documents and job selections with random parameters; the cascaded style of every painted element under several truth assignments of the media conditions compared before and after by an independent cascade",
         "Searches documents of up to about a dozen elements; documents on which a job has a known finding drop that job. Trusts the cascade also used for C11."),
 "C13": ("property-based testing: random transform lists with every spelling; the mapping of points, and of flattened paths and stroke measures where the transform is applied to a path, compared before and after by an independent matrix interpreter",
         "Searches lists of up to five functions and paths of up to a dozen commands. Rounding is allowed for by carrying one unit of the configured precision per argument through the list."),
 "C14": ("property-based testing: random documents with numbered elements and mixed reference kinds; the graph from reference to element compared before and after by an independent reader",
         "Searches documents of up to about 130 ids with cleanupIds, prefixIds and removeXlink, alone and combined, with random parameters; style sheets only with prefixIds and removeXlink."),
 "C15": ("property-based testing: random documents and parameters of 23 jobs that remove, add or reorder content; the output compared, node by node, with a model of what each job documents, applied to the tree of the output without jobs",
         "Searches documents of up to a few dozen elements with comments, metadata, editor content, scripts, links and whitespace. Trusts the models, written from each job's documentation, and a small XML reader."),
 "C22": ("property-based testing: random presets, overlaid jobs with parameters, omissions and SVGO plugin lists are resolved and compared with a JSON overlay model that has its own table of presets and default parameters; documents are run to see that jobs switched off have no effect",
         "Searches configurations of up to a dozen jobs. Trusts the table of presets and defaults, written from the documentation."),
 "C23": ("property-based testing: random documents with mixed content under every writer option; source and output compared by an independent reader that collapses white space as CSS does for text, exactly for scripts and by words elsewhere; formatted twice",
         "Searches documents of up to about 30 elements. In indented output the spaces next to elements within text are not compared (a known finding)."),
    "C18": ("property-based testing: documents are printed together with the list of problems put into them; the reported problems, severities and totals must be exactly these", "every rule, random severities, namespaces, references, look-alike text"),
    "C19": ("property-based testing: documents are printed together with the place of each problem; ranges, lines, columns and marks of the report must be these", "comments, text and attributes that look like problems, characters of several bytes, line breaks, references"),
    "C20": ("property-based testing: random documents and options are converted by the real tool; the module is read and evaluated by an independent reader of JSX for two sets of props and the created element tree is compared with the source", "React and Preact output; TypeScript and native output are not generated"),
    "C21": ("property-based testing: random directory trees and command lines run with the real tool in scratch directories; files, output and exit code are compared with a model of file selection and with the library's result per file", "optimise, format and lint; hidden and ignored entries, broken files, configurations, 0 to 8 threads"),
    "C24": ("property-based testing: random sessions with the real language server; the diagnostics last published per document are compared with the problems put into its latest text", "several documents, several changes at once, broken texts, configurations, UTF-16 positions"),
    "C16": ("property-based testing: random documents and action sequences run through the editor and compared with a model of the specification; path operations by exact cell coverage on a grid", "actions whose effect the specification leaves open end the judged part of a session"),
    "C17": ("property-based testing: random sessions with saves and reloads at random points, compared with a model of history, selection and drawing", "white space between elements excluded (known finding)"),
}
NA = {}
checks = []
for p in props:
    if p in CHECKS:
        t, n = CHECKS[p]
        checks.append({"property": p, "quick_cmd": f"./run.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {p}",
                       "technique": t, "level": EXPL, "level_note": n})
na = [{"property": p, "reason": NA.get(p, "check not built yet")} for p in props if p not in CHECKS]
m = {"version": 1, "setup_cmd": "./setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the harness uses public API only", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Replay a failure with ./run.sh <id> --replay replay/<id>.json. Known findings and fixed defects: KNOWN_FINDINGS.txt and pinned/."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
