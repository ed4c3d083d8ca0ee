#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))

REF = "exhaustive bounded enumeration of %s, each executed on the real code and compared with a reference model"
TRUST = " Trusts the reference model (written from the documentation, independent of the implementation's own helpers), rustc, and the enumeration engine; says nothing beyond the stated bounds."

prop("C01", "Text outside tags appears exactly as written, with the documented trimming",
 "A template that is only text, comments and simple tags shows that text character for character: a backslash makes the character after it plain text and vanishes itself, before white space it removes that run of white space (and a second backslash ending it), at the very end it stays; '{{-' and '-}}' remove all and only the white space touching them, comments show nothing. No other character is ever lost, added, changed or reordered, whatever its position, including at the very start and end.",
 ["inputs", "programs"], "all template texts", "The tests show a handful of templates with one backslash or one trimming tag each; the guarantee is for every combination of brackets, backslashes, dashes, white space and unicode text, in every order.",
 ["src/parse/template.rs"], [("reading of text up to a tag, escapes", "src/parse/template.rs"), ("trimming tags", "src/parse/template.rs")],
 ["output of TreeTemplate::run"], REF % "template texts", "All token strings up to a length over several alphabets, every ASCII character in every context, lengths up to 1000.")

prop("C02", "Blocks nest properly; only what is misnested is rejected",
 "Every sequence of tags in which each block's own closing tag, else, elif and case stand where the documented grammar allows parses into exactly the nested structure they spell and runs as such. A closing tag that does not match the innermost open block, an else or case outside of its block, or any other misplaced tag makes parsing fail. Blocks may be nested and repeated to any depth and number, and those left open at the end of the text end there (an if only after its else).",
 ["programs"], "all sequences of block tags", "The tests parse a few correct templates; no test has a misplaced tag, two kinds of block inside each other in all orders, or deep nesting.",
 ["src/parse/template.rs", "src/template.rs"], [("building the tree from the flat list of tags", "src/template.rs (TreeTemplate parsing, else/elif/case handling)")],
 ["TreeTemplate::from_str", "output of TreeTemplate::run"], REF % "tag sequences", "All tag sequences up to length 4 over every tag and up to 6 over alphabets per construct, nesting to depth 24-48, swapped and missing closers.")

prop("C03", "Exactly one branch of an if runs, chosen by one notion of truth",
 "Of an if with any number of elif arms and an optional else, the first arm whose condition is true runs and no other, else runs if there is none, and no condition after the chosen one is evaluated. A condition that fails or is no boolean-like value counts as not true rather than failing the run. What is true in a condition is the same as in and, or, nand, nor and filter, and in select (which takes whole numbers as an index instead).",
 ["programs", "inputs"], "all conditionals over all values", "The tests have one if/else and a few elif examples with booleans; which arm runs has to hold for every mix of value kinds, failing conditions, nesting.",
 ["src/template.rs", "src/tparam.rs", "src/tdata.rs", "src/funcs/bools.rs"], [("if/elif/else", "src/template.rs TreeItem::If"), ("truth of values", "src/tparam.rs as_bool")],
 ["output of run", "calls seen by a registered function"], REF % "conditionals", "All 1-2 arm conditionals over 32 values of all kinds and 7 failing conditions, 3-5 arms over fewer, nested trees; evaluation order observed through a recording function.")

prop("C04", "Loops visit every element exactly once, in order",
 "A for loop runs its body once for each element of a list in order with its position, for each entry of a map in key order with its key, and for each number below a whole number; on anything else the run fails. Both loop variables, which belong to the block around the loop, hold the current pair in every round, the body sees assignments made outside of the loop, and its own assignments last for one round only. The collection is evaluated once, before the first round.",
 ["programs", "inputs"], "all loops over all values", "The tests loop over two or three element lists and one map; order, count and scope must hold for every collection, size and body.",
 ["src/template.rs", "src/scope.rs"], [("for over map, list, numbers", "src/template.rs TreeItem::For")],
 ["output of run"], REF % "loops", "Loops over all kinds of values, lists up to 6-8 elements, every subset of 10 keys, sizes to 70-200, nested loops with assignments.")

prop("C05", "Variables live in their block; exports live at the top",
 "A variable assigned by let, @let, a loop or a definition is visible from then on within the block where that stands and the blocks inside it (one captured by a pattern: in the body of its case), and nowhere else: after a block ends, however it ends, what was assigned inside of it is gone and every name has the value it had outside, but for exports, which belong to the top. The innermost assignment wins over outer ones, variables win over parameter names, and a called template sees none of its caller's variables.",
 ["programs"], "all sequences and nestings of assignments and blocks", "The tests read one or two variables in straight-line templates; they do not follow a name through nested blocks, failing branches or calls.",
 ["src/scope.rs", "src/template.rs"], [("scope stack", "src/scope.rs"), ("push and pop around blocks", "src/template.rs run_block, Switch, As")],
 ["output of run"], REF % "programs of assignments and blocks", "Every sequence of statements up to length 6-7, every pair of blocks of 9 kinds, chains of depth 3-4, blocks that fail.")

prop("C06", "Calling a template passes arguments, returns its result, and isolates it",
 "A template called by name, through run, as block command or as argument gets exactly the given arguments, by position and by its parameter names, and nothing of its caller; its result is its return value if it makes one, else its text. Functions come before global templates of the same name, later definitions replace earlier ones, recursion works, and a failing callee fails its caller unless first, a condition or a test in a pattern catches it.",
 ["programs", "histories"], "all programs of definitions and calls", "The tests call two or three templates once; how arguments, returns, redefinitions and failures combine over repeated and recursive calls is not sampled.",
 ["src/expr.rs", "src/template.rs", "src/temp_man.rs"], [("run and call by name", "src/expr.rs"), ("define, global, return", "src/template.rs")],
 ["output of run", "the template manager afterwards"], REF % "programs of definitions and calls", "13 bodies x 5 parameter lists x 9 argument lists x 6 ways to call; every program of up to 4-5 of 11 statements; recursion to 25-50.")

prop("C07", "Pattern matching takes the first matching case and binds what it names",
 "switch runs the body of the first case one of whose patterns matches, and no other; as runs its body exactly if its pattern matches. A list pattern matches lists with at least its elements, a map pattern maps with at least its keys, a literal what equals it, a test what makes it true (the boolean), '_' everything; captures hold exactly the matched part in the body and are unknown outside of it. A pattern that does not match leaves nothing behind.",
 ["inputs", "programs"], "all patterns against all values", "The tests match four or five patterns against one value each; the guarantee is about every pattern tree against every value tree and about the order of cases.",
 ["src/pattern.rs", "src/parse/template.rs", "src/template.rs"], [("match_data", "src/pattern.rs"), ("switch and as", "src/template.rs")],
 ["output of run"], REF % "pattern and value trees", "Every pattern of depth 1 over 15 leaves x 25 values in as and switch, depth 2, all case orders over 8 patterns, 51 literal values, sizes to 16-40.")

prop("C08", "Exports and front matter deliver exactly the last exported values",
 "Running with exports returns, besides the text, a map with the last value given to each name by export, @export and return wherever they stand, and nothing of inner blocks but those; top-level variables are included. Front matter is what the top-level export and @export statements give when evaluated one after the other without parameters, templates or any other statement; one that fails is left out and does not disturb the others.",
 ["programs"], "all programs of exporting statements", "The tests export two values; nested, repeated, failing exports and the difference between running and front matter are not tested.",
 ["src/template.rs", "src/scope.rs"], [("run_exp, front_matter", "src/template.rs"), ("set_root, top", "src/scope.rs")],
 ["map returned by run_exp and front_matter"], REF % "programs of exports", "Every program of up to 3-4 of 20 exporting statements, run and as front matter; 17x17 failing blocks; up to 70-200 exports.")

prop("C09", "Expressions evaluate inside out, left to right, each part once",
 "Every expression built of literals, variables, paths, lists, maps and nested commands has the value its structure says, however it is spelled: brackets, white space, commas, quoted names, unbracketed last command. Arguments are evaluated once each from left to right; first stops at the first argument that is neither null nor failing, select evaluates its condition and the chosen argument only. Any other failing part, such as an unknown variable or function, fails the whole run.",
 ["programs"], "all expression trees and their spellings", "The tests evaluate about ten expressions; evaluation order and laziness are not observed and spellings hardly varied.",
 ["src/expr.rs", "src/parse/expr.rs"], [("Expr::run, first, select", "src/expr.rs"), ("expression grammar", "src/parse")],
 ["output of run", "calls seen by a registered function"], REF % "expression trees", "All trees of depth 2 over 6-8 commands with a log of calls, 41 expressions in every spelling, brackets 12 deep, up to 70-200 arguments, nesting to 40-64.")

prop("C10", "Literals mean what they say, and values show as they are written",
 "Numbers, strings with their escapes, raw strings, dates, booleans, null, lists and maps written in a template denote exactly that value: integers exactly, decimals the nearest float, dates the calendar day, escapes their character, a repeated key its last value; what denotes nothing (number out of range, impossible date, bad escape) is rejected rather than read as something else. Words that merely begin like a literal are names. Every value is shown by one rule, the same in a tag, in cat and inside of lists.",
 ["inputs"], "all literals and values", "The tests parse some ten literals; every boundary of integers, floats, dates and escapes is outside of them.",
 ["src/parse/mod.rs", "src/parse/expr.rs", "src/tdata.rs"], [("literal parsers", "src/parse"), ("Display of TData", "src/tdata.rs")],
 ["output of run", "TData::from_str", "Display"], REF % "literals", "Every integer near powers of 2 and 10 and to +-10000, 37128 decimals, every day/month/year boundary, strings over all escapes, all 65536 unicode escapes, structures in 24 spellings.")

prop("C11", "Paths read the same part of every kind of parameter",
 "A parameter given as template value, json, toml, card, map, list, pair, string or number yields at every path exactly the part the path names, and nothing where there is none; which of these types carries the data makes no difference to what is shown, looped over or tested. In a pair the first is asked before the second.",
 ["inputs"], "all values, representations and paths", "The tests use one json object and one vector with paths of one or two steps.",
 ["src/tparam.rs", "src/tdata.rs", "src/scope.rs"], [("TParam implementations", "src/tparam.rs"), ("variable lookup", "src/scope.rs")],
 ["TParam::get_v", "output of run"], REF % "values x paths x representations", "Values of depth 3 in six representations x every path of up to 3 of 8 parts, ladders of depth 30-60, pairs of pairs.")

prop("C12", "Every text is parsed or rejected, quickly and without panic",
 "Reading any text as a template, as data or as a filter expression ends with a result or an error: it never panics, never loops for ever, and takes time that stays moderate however deeply brackets and blocks are nested or left open. The answer is always the same for the same text.",
 ["inputs"], "all texts", "The tests parse well-formed templates only; hostile or broken text is not tested.",
 ["src/parse/template.rs", "src/parse/expr.rs", "src/parse/mod.rs", "src/parse/pattern.rs", "src/template.rs", "src/tdata.rs"], [("grammar and its error handling", "src/parse")],
 ["TreeTemplate::from_str", "TData::from_str"], "exhaustive bounded enumeration of texts on the real parser under a watchdog", "3 million texts: all sequences of tokens of length 3 in 7 contexts, all short character strings, all single edits of 32 templates, nesting to 40-64, lengths to 3000-30000; a case that makes no progress in 25 s counts as a hang.")

prop("C13", "No template value makes a default function or statement panic",
 "Every default function called with any number of arguments of any kinds, and every statement over any values, gives a value or an error; it never panics and always ends. This includes not-a-number, the largest and smallest numbers, empty, very long, multi-byte and malformed text.",
 ["inputs"], "all argument lists of all functions", "The tests call about fifteen functions with one sensible argument list each.",
 ["src/funcs/bools.rs", "src/funcs/lists.rs", "src/funcs/strings.rs", "src/funcs/math.rs", "src/funcs/path.rs", "src/funcs/format.rs", "src/funcs/svg.rs", "src/funcs/maps.rs", "src/funcs/bytes.rs", "src/funcs/random.rs", "src/funcs/table.rs"], [("argument checks of the functions", "src/funcs")],
 ["functions of default_func_man", "TreeTemplate::run"], "exhaustive bounded enumeration of calls on the real functions, panics and hangs observed", "Every default function on every 0-2 of 50 values, 3 of 17-50, 4-5 of 5-10, 25-piece texts for those that read text, 16 statements over 50x50 values. Known finding: r_card can panic inside its library.")

prop("C14", "Arithmetic is exact or an error, never silently wrong",
 "add, sub, mul, div, mod, min and max give the mathematically exact result whenever all arguments are whole numbers and the result fits a whole number (div and mod round towards zero), and an error when it does not fit or is not defined; with a float among them they are floating point operations from left to right. A result is a whole number exactly if all arguments are.",
 ["inputs"], "all argument lists", "The tests add and compare a few small numbers; overflow, signs, mixed kinds and zero are not covered.",
 ["src/funcs/math.rs"], [("folding with mixed kinds", "src/funcs/math.rs")], ["functions of default_func_man", "output of run"], REF % "argument lists", "All pairs of 65 edge values, triples of fewer, folds up to 70-300 arguments, one odd argument at every position.")

prop("C15", "Comparison is one consistent equality and order; logic follows truth tables",
 "eq, neq, eq_any, gt, gte, lt, lte and the order used in sorting agree with one another on all values: equality is reflexive (but for not-a-number), symmetric and transitive, at most one of less, equal, greater holds, numbers compare by value whatever their kind, lists and maps member by member. With several arguments each function compares the first with every other as documented. and, or, nand, nor, is_null, is_num and type_of depend only on the truth, kind and number of their arguments.",
 ["inputs"], "all values, pairs and triples", "The tests compare a few equal and unequal numbers.",
 ["src/funcs/bools.rs", "src/tdata.rs"], [("PartialEq and PartialOrd of TData", "src/tdata.rs"), ("folds", "src/funcs/bools.rs")], ["functions of default_func_man"], REF % "values, pairs and triples", "All pairs of 80 values and triples of 40-80 against a model of comparison and against the laws; lists, strings and maps to 70-200 members.")

prop("C16", "Sorting sorts, and binary search finds",
 "sort and sort_on return a permutation of their input in which no item is out of order by the criteria, earlier criteria before later ones, '-' reversing one, equal items in their original order. bin_search and bin_get on a list sorted by the same criteria find an item exactly if there is one that matches.",
 ["inputs"], "all lists, criteria and searched items", "One test sorts one list; stability, several criteria, descending order, mixed kinds, searching for absent items are not tested.",
 ["src/funcs/lists.rs"], [("sort, sort_on, bin_search, bin_get", "src/funcs/lists.rs")], ["functions of default_func_man"], REF % "lists, criteria and items", "Lists of up to 3 of 80 values and 6-7 of 6, records by 1-3 criteria, up to 100-400 items; searches of every item in every list up to 5 and ladders to 40-130.")

prop("C17", "List and map functions keep, count and pick exactly the right elements",
 "list, append, len, map, groups, slice, get, index_of and filter return exactly the elements their arguments describe, in order, none lost, doubled or changed, for every position and length; in texts positions and lengths count bytes, and cutting a character is an error; filter keeps exactly the elements for which its expression is true. Positions beyond the end and missing or unsuitable arguments have the documented outcome or are errors.",
 ["inputs"], "all lists, positions and sizes", "The tests slice and filter one short list each.",
 ["src/funcs/lists.rs", "src/funcs/maps.rs"], [("the functions", "src/funcs/lists.rs, src/funcs/maps.rs")], ["functions of default_func_man"], REF % "calls", "All 0-2 argument calls over all kinds, every slice of lists and multi-byte strings of up to 12-40, every grouping to 70-200, 1100 filter expressions.")

prop("C18", "Text functions split, join, search and replace exactly",
 "cat, split, join_with, str_contains, str_replace, str_replace_n, string_from_ints and regex treat every text, multi-byte characters included, by their plain definition: pieces are exactly the text between separators, replacing changes every (or the first n) occurrence and nothing else, joining what was split restores it, a regular expression is found exactly where a word of its language is. Numbers that are no characters are left out.",
 ["inputs"], "all texts", "The tests split and replace in one or two texts.",
 ["src/funcs/strings.rs"], [("the functions", "src/funcs/strings.rs")], ["functions of default_func_man"], REF % "texts", "Every string of up to 4-6 of 3 letters against every pattern of up to 2-3, every number up to 4096, every regular expression of depth 2.")

prop("C19", "Word wrapping keeps the text and fits the width",
 "word_wrap returns lines that contain exactly the words of the text in order, none lost, added or changed, none wider in characters than the given width (at least one), with no white space at their ends. A newline always ends a line; other breaks are at white space where the next word does not fit, and within a word only if the word is not shorter than the width.",
 ["inputs"], "all texts and widths", "One test wraps one sentence to one width.",
 ["src/funcs/strings.rs"], [("word_wrap", "src/funcs/strings.rs")], ["functions of default_func_man"], "exhaustive bounded enumeration of texts and widths on the real function against the defining conditions", "All strings of up to 7-8 of letter, two-byte letter, space, newline x widths 0-9; sequences of words and kinds of white space; lengths to 80-300 and extreme widths.")

prop("C20", "Escaped text cannot break out of html or xml, and reads back as it was",
 "The results of html_esc and xml_esc contain no '<', '>', '\"' or '\\'' and no '&' but as part of a complete entity, and reading the entities back gives exactly the input, of any length, in tags, blocks and loops alike. Several arguments are escaped each and joined.",
 ["inputs"], "all texts", "Neither function is tested.",
 ["src/funcs/strings.rs", "src/funcs/svg.rs"], [("html_esc", "src/funcs/strings.rs"), ("xml_esc", "src/funcs/svg.rs")], ["functions of default_func_man"], "exhaustive bounded enumeration of texts on the real functions, decoded by an independent reader", "Every text of the special characters, entities and others up to a length, every single character there is, repetition to 300-1000.")

prop("C21", "Json, base64 and cards survive reading and writing",
 "w_json writes valid json that denotes exactly the value, r_json reads exactly the value a json text denotes whatever its spacing and escapes, and reading what was written gives the value back; text that is not complete json is an error. as_base64 and from_base64 are inverse and reject what is no base64. r_card yields all cards with all their data.",
 ["inputs"], "all values and texts", "One test reads one small json document.",
 ["src/funcs/format.rs", "src/funcs/bytes.rs", "src/parse/expr.rs", "src/tdata.rs"], [("json reading and writing", "src/funcs/format.rs, src/tdata.rs, src/parse"), ("base64", "src/funcs/bytes.rs")], ["functions of default_func_man"], REF % "values and texts", "Every json value of depth 1-2 in 12 spellings, 24552 floats over all exponents, all characters to U+07FF, truncations, token strings up to 5-7; all 1-2 byte sequences; card texts of up to 4-5 lines.")

prop("C22", "Path functions take paths apart and put them together consistently",
 "parent, join, base_name, base_name_sure, stem, full_stem, with_ext and bread_crumbs agree with the usual meaning of paths for every path: joining parent and name denotes the path again, a name is its stem and extension, changing the extension changes nothing else, crumbs are the chain of parents ending in the path itself.",
 ["inputs"], "all paths", "One test joins two paths.",
 ["src/funcs/path.rs"], [("the functions", "src/funcs/path.rs")], ["functions of default_func_man"], REF % "paths", "Every string of up to 6-7 of 5 pieces (names, dots, slashes) through 7 functions, joins of up to 3-4, extensions, laws, lengths to 40-100.")

prop("C23", "Tables and markdown render every cell and block",
 "table turns table notation into one html table with exactly the rows, cells, heads, spans and continuations it spells, each cell's text complete and in order; md renders the html that markdown denotes with the supported extensions; both do so in functions and as blocks over generated text.",
 ["inputs"], "all texts in table notation or markdown", "One test renders one small table.",
 ["src/funcs/table.rs", "src/funcs/strings.rs"], [("table", "src/funcs/table.rs"), ("md", "src/funcs/strings.rs")], ["functions of default_func_man"], REF % "texts", "Every text of up to 8-9 of | letter newline * - space, every sequence of 4-5 of 14 rows, up to 70-200 columns and rows; 77x77 markdown blocks.")

prop("C24", "Svg helpers place every argument at its attribute",
 "xy, xywh, cxyrr, xy12, fl_stk and font give the attributes they name, each with the text of its own argument and the unit where one is given, in order; a missing required argument is an error.",
 ["inputs"], "all argument lists", "None of them is tested.",
 ["src/funcs/svg.rs"], [("the functions", "src/funcs/svg.rs")], ["functions of default_func_man"], REF % "argument lists", "Every 0-5 arguments of 7 values; each kind of value at each position.")

prop("C25", "Locked file functions never reach outside of their folder",
 "With file functions locked to a folder, no argument makes any of them read, list, test or measure anything outside of that folder: a path that leads out of it, by '..', as an absolute path, through a sibling with a similar name, or back through a link, is an error that tells nothing. Locked writing creates and changes files only inside its folder. Paths that stay inside keep working, however the folder itself was spelled.",
 ["inputs", "configurations"], "all paths, functions and spellings of the folder", "No test uses the file functions.",
 ["src/funcs/folder.rs", "src/funcs/write.rs"], [("safe_path", "src/funcs/folder.rs"), ("locked functions", "src/funcs/folder.rs, src/funcs/write.rs")], ["functions of func_man_folders and with_write_lock", "the file system"], "exhaustive bounded enumeration of paths on the real functions over a real folder tree, compared with a model file system", "Every path of up to 4-5 of 9 components x 7 functions, 11 spellings of the folder x 8 beginnings, odd characters, ladders of '..' to 40-200, writing with the whole tree compared after every case; links placed inside by the owner may be followed.")

prop("C26", "File functions return and store exactly what is in the files",
 "file and file_bytes return exactly the content of the named files joined in order, dir lists exactly the names in a folder, is_file and is_dir tell which it is and are true only if all are, scan_dir lists exactly the files not hidden by '_' to the given depth with their path and front matter and only those matching the filter, file_img_dimensions the size of the picture, write stores exactly the given text replacing what was there and making folders. Missing files, unsuitable kinds of file and text that is not UTF-8 are errors, and locked and free variants agree. Each sees what was done before it.",
 ["inputs", "histories"], "all folder trees, contents and sequences of operations", "No test uses the file functions.",
 ["src/funcs/folder.rs", "src/funcs/free_file.rs", "src/funcs/write.rs", "src/template.rs"], [("locked functions", "src/funcs/folder.rs, src/funcs/write.rs"), ("free functions", "src/funcs/free_file.rs"), ("TreeTemplate::load", "src/template.rs")], ["functions of the managers", "the file system"], "exhaustive bounded enumeration of folder trees and operation histories on the real functions, compared with a model file system", "All contents of up to 3-4 of 11 bytes, sizes around powers of two, every subset of 9 names, every tree of 8 optional parts x 6 depths, 81 picture sizes, every history of up to 3-5 of 11 operations.")

prop("C27", "A template can do only what its function manager was granted",
 "The default functions give templates no access to files, programs or the environment whatever they are given; each grant (folder lock, free files, write lock, programs) adds exactly its own functions, and where two grants provide the same function the later one counts alone. Text evaluated on behalf of a template, front matter of scanned files and filter expressions, gets the default functions only, even if the manager has more.",
 ["configurations", "inputs"], "all sequences of grants and all evaluated texts", "No test builds a manager other than the default one.",
 ["src/funcs/mod.rs", "src/func_man.rs", "src/funcs/folder.rs", "src/funcs/free_file.rs", "src/funcs/lists.rs"], [("grants", "src/funcs/mod.rs WithFuncs"), ("replacement of functions", "src/func_man.rs"), ("managers for scanned files and filters", "src/funcs/folder.rs, src/funcs/lists.rs")], ["FuncManager::get_func, for_each", "the file system"], "exhaustive enumeration of grant sequences and evaluated texts on the real managers, compared with a capability model", "Every sequence of up to 3-5 of 7 grants probed by calling each function, default functions on file-naming arguments, 19 powerful expressions x 9 placements x 6 managers.")

prop("C28", "Programs get exactly the given arguments and input, and all output returns",
 "exec and exec_stdin start the named program with exactly the given arguments, unseen by any shell, and return everything it writes whatever its exit status; exec_stdin also gives it exactly the given text, and neither ever blocks or fails because of the amount of data or because the program reads only part of it. Each call in a template happens exactly once, in order; output that is no text, a missing program and missing arguments are errors. env gives the variable, also if empty, else the default, else an error.",
 ["inputs", "schedules", "histories"], "all argument lists, amounts of data and behaviours of the program", "No test runs a program.",
 ["src/funcs/exec.rs"], [("exec, exec_stdin, env", "src/funcs/exec.rs")], ["functions of with_exec"], "exhaustive bounded enumeration of arguments, data sizes and program behaviours on the real functions", "Every 0-2 of 27 arguments, 13 sizes around the pipe capacity x 14 reading and writing behaviours (which fix the order in which pipes fill, block and close), byte sequences, every order of up to 3-4 statements. The operating system's schedule within one behaviour is not controlled.")

prop("C29", "Runs depend on nothing but template, parameters and registrations",
 "Running a template any number of times, in any order with others, over the same managers gives each time what its text, parameters, the functions and the global templates registered before determine; nothing else is carried from one run, failed or not, to the next, and templates, arguments and parameters are not changed by running. The order in which a map was filled is never seen. Function managers list, describe and provide exactly the functions added, the last one under each name; template managers are asked and told exactly what the template says, in order, and their failures are handled as any other.",
 ["histories", "fault_sequences"], "all histories of runs and registrations; all points of failure of the managers", "The tests run each template once, with fresh managers that never fail.",
 ["src/template.rs", "src/scope.rs", "src/func_man.rs", "src/temp_man.rs", "src/expr.rs", "src/tdata.rs"], [("run state is made anew", "src/template.rs run_exp"), ("BasicFuncs", "src/func_man.rs"), ("TempManager", "src/temp_man.rs"), ("key order", "src/tdata.rs")], ["run, run_exp, front_matter", "for_each, print_filter", "calls of a recording manager"], "exhaustive enumeration of run histories and of every fault point on the real code, compared with a reference model", "Every history of up to 3-4 of 36 runs over shared managers; a fault at each of the first 10-16 calls of every program of up to 3 of 12 templates; every filling order of up to 5-6 keys; every sequence of registrations up to 3-4.")

prop("C30", "Random choices stay within what was asked for",
 "rand returns a number that is at least the lower and below the upper end, of the kind of the ends, or a member of the given list; every member and every number of a small range is possible. An empty range or list and unsuitable arguments are errors.",
 ["inputs"], "all ranges and lists", "rand is not tested.",
 ["src/funcs/random.rs"], [("get_rand", "src/funcs/random.rs")], ["functions of default_func_man"], "exhaustive bounded enumeration of ranges and lists on the real function, repeated calls each checked for membership", "Every pair of 63 values, every range within -12..12 to -30..30 in three kinds, lists to 30-100. The generator is not controlled: membership is checked on each of the repeated answers.")

prop("C31", "A block command gets exactly the text of its block",
 "'{{@command}}' blocks hand their command the complete text of the block as it would have been shown, as '@' where arguments are given and as the only argument otherwise, and show its result; @let and @export store exactly that text. The body has a scope of its own, is evaluated before the arguments and once, and blocks may be nested; a failing body or command fails the run.",
 ["programs"], "all bodies, commands and arguments", "Two tests use one block command each.",
 ["src/template.rs"], [("Block, AtLet, AtExport", "src/template.rs")], ["output of run"], REF % "block programs", "12 bodies x 12 argument lists x 12 commands, nested 2-3 deep, bodies to 1000 items.")

def main():
    P.sort(key=lambda p: p["id"])
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            o = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]},
                 "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}
            f.write(json.dumps(o, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "bash run.sh --build-only", "checks": [], "not_applicable": NA,
         "notes": "One explorer (mc/) holds all checks; see DESIGN.md. No hooks in /repo."}
    for p in P:
        if p["id"] in [n["property"] for n in NA]:
            continue
        m["checks"].append({"property": p["id"], "quick_cmd": f"bash run.sh {p['id']} --tier quick", "thorough_cmd": f"bash run.sh {p['id']} --tier thorough",
            "technique": p["technique"], "level": "model_checking", "level_note": p["note"] + TRUST})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
NA = []
if __name__ == "__main__":
    main()
