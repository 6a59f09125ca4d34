#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or ["return value of parsing and rendering"], hook_needed=None)))

p("C01", "Text outside tags is reproduced exactly",
  "Whatever text a template has outside {{...}} tags appears in the rendered output exactly once, in order and character for character, whatever characters it holds, single braces included. The only exceptions are the documented ones: a backslash emits the next character literally, a backslash before whitespace deletes that run of whitespace (and one closing backslash), and {{- / -}} delete the whitespace next to the tag. Comments produce no output.",
  ["inputs"], "every template text (any interleaving of literal characters, whitespace runs, backslashes, braces, trim marks and tags)",
  "the tests render about twenty fixed templates with plain ASCII text; trim marks, escapes, lone braces and their combinations form an unbounded input space",
  ["src/parse/template.rs", "src/template.rs"],
  [("StringItem", "src/parse/template.rs StringItem"), ("IOpen/IClose", "src/parse/template.rs IOpen, IClose"), ("text items", "src/template.rs TreeItem::String")])

p("C02", "Tags form properly nested blocks or the template is rejected",
  "A closing, else, elif or case tag always belongs to the innermost open construct that may take it: a tag that closes a construct other than the innermost one, or that stands where no construct takes it, makes parsing fail instead of being ignored or attached elsewhere. Every other template parses, and each construct then governs exactly the tags and text between its opening tag and its own closing tag (or the end of the template, where the language allows leaving it open).",
  ["inputs"], "every sequence of opening, separating and closing tags with arbitrary nesting",
  "only well-nested fixed templates are tested; no test has a misplaced or missing closing tag",
  ["src/template.rs", "src/parse/template.rs"],
  [("tree building", "src/template.rs tt_basic, tt_name_block, tt_if_yes, tt_else, tt_for, tt_switch"), ("tag grammar", "src/parse/template.rs Item")])

p("C03", "Parsing and rendering never panic or hang",
  "Parsing any text and rendering any parsed template with any parameters and any arguments to the built-in functions ends with a value or an error returned to the caller; it never panics and never loops on bad input. Unbounded recursion and loops over huge counts that the template itself asks for are excepted.",
  ["inputs", "programs"], "every input text, every built-in function, every argument count, type and boundary value",
  "the tests call built-ins with a few good arguments; argument counts, types and boundary values multiply",
  ["src/funcs/math.rs", "src/funcs/lists.rs", "src/funcs/strings.rs", "src/funcs/path.rs", "src/funcs/random.rs", "src/funcs/table.rs", "src/expr.rs", "src/parse/template.rs", "src/parse/expr.rs"],
  [("argument checks", "src/funcs/*.rs"), ("special forms", "src/expr.rs run_command"), ("text grammar", "src/parse/template.rs StringItem")])

p("C04", "Variables are block scoped and the innermost binding wins",
  "A variable bound inside a block is visible from its binding to the end of that block, inner blocks included, and is gone when the block ends, whichever way its contents went; blocks that did not run bind nothing. A name always denotes its most recent binding in the innermost block that has one, then an outer block's, then the parameter of that name; binding a name inside a block never changes the value an outer block sees afterwards.",
  ["programs", "inputs"], "every nesting of blocks with bindings of the same and different names, and every path through them",
  "the tests have one straight-line let test; shadowing, rebinding in nested and skipped blocks and failed patterns are unexplored",
  ["src/scope.rs", "src/template.rs"],
  [("scope stack", "src/scope.rs Scope::get, set, push, pop"), ("block runner", "src/template.rs run_block"), ("as / switch", "src/template.rs TreeItem::As, TreeItem::Switch")],
  state=[dict(name="frames", meaning="stack of name-to-value maps of the running template", where="src/scope.rs Scope.maps")])

p("C05", "Exports and return values reach the caller exactly",
  "Rendering returns, besides the text, a map holding every exported name and every name bound at the template's top level with the value it was last given, and nothing bound only in an inner block; an export inside any depth of blocks counts and is visible to the rest of the template. When a called template has executed a return, the call's value is exactly the last value returned, with its type; otherwise the call's value is the text it rendered.",
  ["programs", "inputs"], "every template with exports, returns and top-level bindings at any depth, and every way it is called",
  "tests have two fixed uses of export and return; last-write-wins, nested exports and typed returns are not varied",
  ["src/template.rs", "src/scope.rs", "src/expr.rs"],
  [("root frame", "src/scope.rs set_root, top"), ("return", "src/template.rs TreeItem::Return, src/expr.rs run_command, run_values")])

p("C06", "A called template sees only its own parameters",
  "A template called by name or through a template value sees exactly the arguments of that call, positionally and by its declared parameter names; the caller's variables, parameters and block content are invisible to it, and nothing it binds or exports changes any variable or export of the caller. Missing arguments are absent, extra ones are reachable by position, and calls to any depth behave the same way.",
  ["programs", "histories"], "every nesting of calls, argument count and reuse of names between caller and callee",
  "three tests call one template once with matching arguments; name clashes, missing arguments and nested calls are not tested",
  ["src/expr.rs", "src/template.rs", "src/scope.rs"],
  [("call", "src/expr.rs run_command 'run', run_values"), ("fresh scope", "src/template.rs run_exp, src/scope.rs with_pnames")])

p("C07", "Exactly one branch of a conditional runs",
  "Of an if / elif / else construct, the branch of the first condition that is true runs, exactly once, or the else branch if none is, or nothing; conditions after the chosen one are not evaluated and the other branches have no effect. A condition that fails to evaluate counts as not true and does not abort the render.",
  ["programs", "inputs"], "every chain of conditions over every type of value, conditions with errors and side effects, and nesting",
  "one test with a boolean parameter; elif chains, truthiness of other types and failing conditions are untested",
  ["src/template.rs", "src/tdata.rs"],
  [("If item", "src/template.rs TreeItem::If, tt_if_yes, tt_else"), ("truthiness", "src/tdata.rs as_bool")])

p("C08", "Loops visit every element exactly once, in order",
  "A for loop runs its body once for each element of a list in order with the index counted from 0, once for each number from 0 up to but excluding n for a whole number n (not at all when n is negative), and once for each entry of a map with its key and value. The collection is fixed when the loop starts, the outputs are concatenated in visiting order, and looping over any other type is an error.",
  ["programs", "inputs"], "every collection (empty, nested, each type), body, and nesting of loops",
  "two tests loop over one four-element list and over sorted maps",
  ["src/template.rs"],
  [("For item", "src/template.rs TreeItem::For")])

p("C09", "Pattern matching selects the first matching case and binds only it",
  "A switch runs the first case with a matching pattern and no other; 'as' runs its block only if its pattern matches. A list pattern matches a list with at least as many elements whose leading elements match, a map pattern a map having all the named keys with matching values, a literal an equal value, a filter only when its expression on @ gives boolean true, and captures bind the matched part for the selected block only: nothing a failed or finished match captured is visible afterwards.",
  ["programs", "inputs"], "every pattern (nested, with captures and filters) against every value, and every sequence of cases",
  "one switch test and two 'as' files with three patterns; failing nested patterns with captures are not tested",
  ["src/pattern.rs", "src/template.rs", "src/parse/pattern.rs"],
  [("matcher", "src/pattern.rs match_data"), ("switch / as", "src/template.rs TreeItem::Switch, TreeItem::As")])

p("C10", "Block functions get the block's rendered text exactly once",
  "A block tag {{@f}}..{{/f}} renders its content once and calls f once: with the rendered text as only argument when the tag has no arguments, else with the tag's arguments in order, where @ stands for the rendered text. {{@let x}} and {{@export x}} emit nothing and bind x to the rendered text, in the enclosing block and at the top level respectively.",
  ["programs"], "every block function, argument list, content (with nested blocks and side effects) and nesting",
  "one test uses one block function with arguments",
  ["src/template.rs", "src/parse/template.rs"],
  [("Block item", "src/template.rs TreeItem::Block, AtLet, AtExport")])

p("C11", "Arguments evaluate once, left to right; errors abort",
  "The arguments of a function or template call, and the parts of a list or map literal, are evaluated exactly once each, left to right, before the call. 'first' evaluates its arguments in turn only until one gives a non-null value, passing over failing ones; 'select' evaluates only its selector and the chosen argument. Any other failure stops the render at that point: nothing later is evaluated and the caller gets an error and no text.",
  ["programs", "fault_sequences"], "every expression tree, with a failing or side-effecting call at any position",
  "evaluation order is invisible to the existing tests, whose functions have no side effects; no test has a failing expression other than in 'first'",
  ["src/expr.rs", "src/template.rs"],
  [("evaluator", "src/expr.rs Expr::run, run_command, run_values"), ("item sequencing", "src/template.rs run_exp, run_block")],
  observe=["order and arguments of calls to host-registered functions", "return value of rendering"])

p("C12", "A name calls the host function, else the stored template",
  "A call by name reaches the function the host registered last under that name if there is one, and otherwise the template stored last under it; if there is neither it fails. A global definition stores the template when, and only when, it is executed, replacing any earlier one of that name, is usable from then on in every template rendered with the same template store, and never replaces a host function; a store that refuses templates makes such calls fail.",
  ["histories", "programs"], "every history of registrations, global definitions, renders and calls over one function set and template store",
  "the tests define one global per store and never redefine or shadow a name",
  ["src/expr.rs", "src/func_man.rs", "src/temp_man.rs", "src/template.rs"],
  [("lookup order", "src/expr.rs run_values"), ("stores", "src/temp_man.rs, src/func_man.rs add_func"), ("Global item", "src/template.rs TreeItem::Global")],
  state=[dict(name="template store", meaning="name to template", where="src/temp_man.rs BasicTemps")])

p("C13", "Comparisons and truth functions obey their laws",
  "Numbers of any kind compare by numeric value; strings, dates and booleans equal only values of their own type; values of different types order by one fixed ranking, so that exactly one of less, equal-ranked, greater holds and ordering is transitive (not-a-number excepted). eq, neq, eq_any, gt, gte, lt, lte relate the first argument to all (neq: some, eq_any: any) of the others accordingly; and, or, nand, nor, is_null, is_num and type_of follow the documented truth value and type of each argument: empty text, zero, null and empty collections are false.",
  ["inputs"], "every pair and triple of values of all types, with boundary numbers",
  "no test compares values of different types or non-small numbers",
  ["src/tdata.rs", "src/funcs/bools.rs", "src/funcs/math.rs"],
  [("order and equality", "src/tdata.rs partial_cmp, eq, mode_rank, as_bool"), ("functions", "src/funcs/bools.rs")])

p("C14", "Sorting permutes into order, stably; searching finds",
  "sort and sort_on return a permutation of their input (all list arguments together for sort) in non-decreasing order of the value, respectively of the named criteria from first to last, a leading - reversing a criterion and elements that lack a key ranking below those that have it; elements that tie keep their relative order. On a list sorted by the same criteria, bin_search returns the index and bin_get the element that ties with the sought item if there is one, and null otherwise.",
  ["inputs"], "every list (mixed types, ties, missing keys, any length) and criteria list",
  "two tests sort one four-element and one five-element list; ties, mixed types and searches are untested",
  ["src/funcs/lists.rs", "src/tdata.rs"],
  [("sort, sort_on", "src/funcs/lists.rs"), ("bin_search, bin_get", "src/funcs/lists.rs"), ("order", "src/tdata.rs partial_cmp")])

p("C15", "List and map functions return exactly the stated elements",
  "list, append, groups, slice, get, len, index_of, filter, map and split-free list literals neither lose, duplicate, reorder nor alter elements: append flattens its list arguments one level in order, groups cuts a list into consecutive runs of the given size with only the last shorter, slice and get pick by position (strings by byte position), filter keeps exactly the elements for which its expression is true, map pairs keys with values with later keys winning. Positions out of range give null or an error as documented and never a wrong element.",
  ["inputs"], "every list, map and string, every index, size and argument count",
  "one filter test; the other functions have no tests",
  ["src/funcs/lists.rs", "src/funcs/maps.rs"],
  [("list functions", "src/funcs/lists.rs"), ("map", "src/funcs/maps.rs")])

p("C16", "Whole-number arithmetic is exact or an error",
  "add, sub, mul, div and mod on whole numbers give the mathematically exact result (div truncating toward zero) whenever it fits the type of the result, and an error otherwise, division by zero included; they never wrap around or lose digits. min and max return the smallest and largest argument; arguments combine from left to right, mixing in a floating-point number gives floating point, and a non-number is an error.",
  ["inputs"], "every list of numbers, up to and beyond the limits of the integer types",
  "one test computes 3*108.2; no test touches a boundary, zero divisor or negative result",
  ["src/funcs/math.rs"],
  [("folds", "src/funcs/math.rs add, sub, mul, div, modulo, min, max, num_match")])

p("C17", "String functions account for every character",
  "cat, split, join_with, str_contains, str_replace, str_replace_n, string_from_ints and word_wrap build their result from the characters of their arguments with none lost, added or reordered: joining what split produced with the same separator restores the string, replacement touches exactly the non-overlapping leftmost occurrences (the first n for str_replace_n), and word_wrap drops nothing but whitespace, keeps every line within the width and breaks no word shorter than the width.",
  ["inputs"], "every string (empty, multi-byte, overlapping occurrences, any separator) and every width and count",
  "two tests use cat and one str_contains; none of the others is tested",
  ["src/funcs/strings.rs", "src/funcs/path.rs"],
  [("functions", "src/funcs/strings.rs, src/funcs/path.rs join_with")])

p("C18", "Escaped text is inert and decodes to the original",
  "The output of html_esc and of xml_esc contains none of < > \" ' and no & other than the start of a complete character reference, and decoding those references yields exactly the concatenated text of the arguments. This holds wherever the escaped text is placed, also when characters that could extend a reference follow it.",
  ["inputs"], "every text, with special characters in any combination and any following characters",
  "neither function is tested",
  ["src/funcs/strings.rs", "src/funcs/svg.rs"],
  [("html_esc", "src/funcs/strings.rs html_esc"), ("xml_esc", "src/funcs/svg.rs _xml_es")])

p("C19", "Folder-locked functions never leave their folder",
  "Functions locked to a folder (file, file_bytes, dir, is_file, is_dir, scan_dir, file_img_dimensions, write) only ever read, list, reveal, create or change files inside that folder, whatever path a template gives them: parent-directory steps, absolute paths and their combinations that would lead outside are refused with an error and have no effect. Paths that stay inside keep working, also when they contain parent-directory steps. (Links the host itself placed in the folder are followed.)",
  ["inputs", "histories"], "every path string (.., ., //, absolute, into and out of subfolders) for every locked function, in every sequence of operations",
  "no test uses a folder-locked function",
  ["src/funcs/folder.rs", "src/funcs/write.rs", "src/func_man.rs", "src/funcs/mod.rs"],
  [("path check", "src/funcs/folder.rs safe_path"), ("use by every locked function", "src/funcs/folder.rs, src/funcs/write.rs")],
  observe=["results of the functions", "the file system outside and inside the folder after each call"])

p("C20", "File functions report the folder as it is",
  "After any sequence of writes, file and file_bytes return exactly the last content written to a path (several paths concatenated in order), is_file and is_dir tell exactly which paths exist as such, dir lists exactly the entries of a folder, and scan_dir returns exactly one entry for every file to the requested depth whose name and folders do not start with an underscore and whose path matches the filter, with its path, name and front matter. write replaces the whole content, creates missing folders and changes nothing else; missing paths give an error or false.",
  ["histories", "inputs"], "every sequence of writes, overwrites with shorter or longer content, reads, listings and scans over any folder tree",
  "no test touches these functions",
  ["src/funcs/folder.rs", "src/funcs/write.rs", "src/funcs/free_file.rs"],
  [("reads and scans", "src/funcs/folder.rs, src/funcs/free_file.rs"), ("writes", "src/funcs/write.rs, src/funcs/free_file.rs write")],
  state=[dict(name="file tree", meaning="folders and file contents below the locked folder", where="operating system")])

p("C21", "Templates can use only the capabilities the host granted",
  "A template rendered with the default function set cannot read, list, write or probe files, run programs or read the environment; those functions exist only in function sets to which the host added them: adding folder-locked reading grants no writing, and neither grants running programs or environment access. A call to a function that was not granted fails.",
  ["configurations", "programs"], "every combination of the optional function groups and every function name",
  "tests use only the default set and never ask for a missing function",
  ["src/funcs/mod.rs", "src/func_man.rs", "src/expr.rs"],
  [("groups", "src/funcs/mod.rs with_defaults, with_folder_lock, with_free_files, with_exec, with_write_lock"), ("constructors", "src/func_man.rs default_func_man, func_man_folders")])

p("C22", "Host data looks the same to a template in every representation",
  "A path such as $0.a.2 reaches the same value whichever supported host type carries the data (native values, JSON, TOML, string-keyed maps, lists of strings, key-value pairs, plain scalars, or two of them combined, the first taking precedence): map keys select entries, numbers select list elements, and converting the data first makes no difference. A path that leads through a scalar, a missing key or an out-of-range index reaches nothing, which is an error when used directly.",
  ["inputs"], "every data value, every host representation of it and every path into it",
  "the tests pass scalars and a flat JSON array and follow paths one level deep",
  ["src/tparam.rs", "src/tdata.rs", "src/scope.rs"],
  [("lookups", "src/tparam.rs get_v"), ("conversions", "src/tdata.rs from_json, from_toml")])

p("C23", "Literals denote their value and data text round-trips",
  "A literal in a template denotes exactly the value written (null, booleans, whole numbers, decimal numbers as the nearest floating-point number, dates, strings with their escapes, nested lists and maps, of a repeated key the last value), and one that cannot be represented is rejected, never silently altered. r_json of w_json of any value made of null, booleans, strings, whole numbers, decimal numbers of ordinary magnitude, lists and maps is equal to that value, from_base64 of as_base64 is the original bytes, and text that is not entirely one value makes r_json fail.",
  ["inputs"], "every value and every literal spelling (signs, leading zeros, fractions, escapes, nesting)",
  "the tests write a handful of small integers, one fraction parameter and plain strings",
  ["src/parse/expr.rs", "src/funcs/format.rs", "src/funcs/bytes.rs", "src/tdata.rs"],
  [("literal grammar", "src/parse/expr.rs"), ("r_json, w_json", "src/funcs/format.rs, src/tdata.rs Serialize"), ("base64", "src/funcs/bytes.rs")])

p("C24", "Front matter is the template's top-level exports, without side effects",
  "Extracting front matter returns exactly the values of the top-level exports that can be evaluated without parameters or stored templates, each seeing the exports before it, with later ones replacing earlier ones of that name; exports that fail are left out and do not disturb the others. Nothing else of the template is evaluated, and for a template whose exports all depend only on earlier exports and literals the result agrees with what rendering exports.",
  ["programs"], "every template mixing exports, failing exports, block exports and other tags",
  "no test extracts front matter",
  ["src/template.rs", "src/funcs/folder.rs"],
  [("front_matter", "src/template.rs front_matter"), ("error path of blocks", "src/template.rs run_block")])

p("C25", "Path functions decompose and recompose paths consistently",
  "join, parent, base_name, base_name_sure, stem, full_stem, with_ext and bread_crumbs treat their arguments as one joined path: joining parent and base_name gives the path back, stem is the base name without its last extension, with_ext changes only the extension, and bread_crumbs lists the path's ancestors from the shortest to the path itself. Where a part does not exist the result is empty or an error as documented, never part of another path component.",
  ["inputs"], "every list of path strings (empty, absolute, dotted, trailing slashes, multiple dots)",
  "no test uses a path function",
  ["src/funcs/path.rs"],
  [("path functions", "src/funcs/path.rs")])

p("C26", "Rendering is repeatable and leaves no trace",
  "Rendering the same template with equal parameters, functions and template store gives equal results every time, also after other renders or failed renders, after cloning or parsing it again, and when loaded from a file holding the same text (only the order in which a map's entries are visited or printed is not fixed). Apart from executed global definitions, a render, whether it succeeds or fails, changes nothing that a later render can observe.",
  ["histories", "fault_sequences"], "every sequence of successful and failing renders of several templates over one store",
  "the tests render a template at most three times and never after a failure",
  ["src/template.rs", "src/scope.rs", "src/expr.rs", "src/temp_man.rs"],
  [("fresh scope per render", "src/template.rs run_exp"), ("load", "src/template.rs load")])

p("C27", "Values print in one canonical form",
  "Emitting a value, concatenating it or passing it where text is needed always gives the same text for it: strings unchanged, booleans as true/false, numbers in plain decimal that reads back as the same number, dates as dd/mm/yyyy, null as NULL, a list as its printed elements between brackets with commas. A tag that is a bare expression emits exactly that text.",
  ["inputs"], "every value of every printable type, nested to any depth",
  "the tests print small integers, strings and one list",
  ["src/tdata.rs", "src/funcs/strings.rs", "src/template.rs"],
  [("Display", "src/tdata.rs fmt"), ("cat", "src/funcs/strings.rs cat"), ("Exp item", "src/template.rs TreeItem::Exp")])

p("C28", "Random picks stay in their range",
  "rand of a bound or pair of bounds returns a number of the bounds' type that is at least the lower and below the upper bound, rand of a list returns one of its elements, and rand without arguments a number from 0 up to 1; an empty range or list, or other arguments, is an error. Every whole number in a small range and every element of a short list can be returned.",
  ["inputs", "schedules"], "every range and list and every outcome of the generator",
  "the function has no test",
  ["src/funcs/random.rs"],
  [("get_rand", "src/funcs/random.rs")])

p("C29", "Markup helpers emit each argument once, in its place",
  "The table notation yields one row per row line (a line of at least two cells), one cell per cell in order, header cells exactly for rows marked as header, and appends continuation cells to the cell of the same column, creating missing columns; the attributes given are placed on the table. The svg helpers (xy, xywh, cxyrr, xy12, fl_stk, font) emit their attributes in order with the argument that belongs to each and the optional unit on every length; missing required arguments are an error.",
  ["inputs"], "every table text (headers, continuations, ragged rows) and every argument list",
  "neither the table notation nor the svg helpers have tests",
  ["src/funcs/table.rs", "src/funcs/svg.rs", "src/funcs/strings.rs"],
  [("table", "src/funcs/table.rs"), ("svg", "src/funcs/svg.rs")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
