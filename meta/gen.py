#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, text, why, files, mech, technique, note, observe):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, observe=observe))

DIFF = "differential monitoring of runs against a reference interpreter, with a trace of host calls, under overflow checks and debug assertions"
FUN = "online oracle over generated calls of the real functions (direct and from templates), under overflow checks and debug assertions"
ASSUME = "Assurance: no violation in the executions that were observed; trusts the oracle in harness/model and the generators."

p("C01", "Parsing of any text ends, with one answer",
  "Parsing any text as a template, as tags, as data or as JSON ends in a value or an error: it never panics, never runs without end, and needs no more than moderate time for moderate text. The same text gives the same result each time, and parsing it in one step or through its tags agrees.",
  ["inputs"], "every text: changed programs, tokens and characters in any order, almost-literals, nesting to a depth of 400, long repetitions",
  "A parser can loop, backtrack exponentially or panic on any of infinitely many texts; the tests parse some 20 well formed ones.",
  ["src/parse/template.rs", "src/parse/expr.rs", "src/parse/pattern.rs", "src/template.rs"],
  [("text and tags", "src/parse/template.rs"), ("expressions and literals", "src/parse/expr.rs"), ("nesting of tags", "src/template.rs")],
  "mutation and token workloads on the real parser; panic, overflow, crash and processor time monitors; agreement of the two ways to parse",
  "Nesting beyond the stack is a known finding. " + ASSUME, ["result of parsing", "processor time of a case"])

p("C02", "Rendering and calling never panics, whatever the values",
  "Running any template, reading its front matter, and calling any default function with any number and kind of arguments ends in a value or an error: no panic, no overflow, no abort, no endless run. Except for random numbers, and for the order of maps, the same call gives the same result.",
  ["inputs", "programs"], "every default function by every list of arguments: extreme numbers, NaN, strings of any characters, nested lists and maps, bytes, dates, templates; every template over such parameters",
  "Panics hide in single values (the smallest integer, an empty range, a character of three bytes at a cut); the tests call each function with one or two ordinary values.",
  ["src/funcs/mod.rs", "src/funcs/strings.rs", "src/funcs/lists.rs", "src/funcs/math.rs", "src/expr.rs", "src/template.rs"],
  [("argument checks of the functions", "src/funcs/*.rs"), ("evaluation", "src/expr.rs"), ("running", "src/template.rs")],
  "hostile argument and program workloads; overflow checks, debug assertions, panic, crash and processor time monitors; each call twice",
  "Exercises every default function in each run (counted in the evidence). " + ASSUME, ["result of the call", "panic hook", "signals"])

p("C03", "Literal text comes out as written, and whitespace control trims just there",
  "Text outside of tags is output character for character, but for backslashes: one quotes the character after it, or removes the whitespace after it (with a second backslash that ends that whitespace, if there is one); a backslash that ends the text is refused. A dash at the inner edge of a tag removes all of the whitespace, and nothing else, from the text next to that edge.",
  ["inputs"], "every sequence of text pieces (any Unicode, backslashes, braces) and tags with or without a dash on each side",
  "The interplay of neighbouring text, quoted characters, dashes and tags is a product of cases; the tests have a handful of trims.",
  ["src/parse/template.rs", "src/parse/mod.rs", "src/template.rs"],
  [("text, quotation and trimming", "src/parse/template.rs"), ("whitespace", "src/parse/mod.rs"), ("printing", "src/template.rs")],
  "online oracle: expected output computed from the pieces a template is made of", ASSUME, ["output"])

p("C04", "Control flow follows the values, and tags must nest",
  "Of an if chain exactly the first branch with a true condition is output (a condition that fails counts as false), a for loop runs its body once per element of a list (in order, key the index), per entry of a map, or per number below an integer, and a switch or as runs the first case that matches. A variable set within a branch, or in one pass of a loop, is not there in the next pass, or after; the loop's own key and value are set in the block around it. A closing tag, an else, an elif or a case that does not belong to the innermost open tag is refused when parsing, and so is an if that the text ends without an else or an end; what is nested properly is accepted, and any other tag may be left open at the end.",
  ["programs", "inputs"], "generated programs of nested if/elif/else, for over lists, maps, integers and other values, switch, as; sequences of opening and closing tags in any order",
  "The statement is about every nesting of constructs over every value; the tests have one or two of each construct by itself.",
  ["src/template.rs", "src/scope.rs", "src/expr.rs"],
  [("if, for, switch, as", "src/template.rs"), ("building the tree", "src/template.rs")],
  DIFF, ASSUME, ["output", "trace of host calls", "result of parsing"])

p("C05", "Evaluation is in order, once, and no more than needed",
  "Arguments are evaluated left to right, each exactly once, before their function is called; first stops at the first argument that is neither a failure nor null, select evaluates its index and only the argument it picks; conditions after a true one, and branches and cases that are not taken, are not evaluated. A failing function stops the template there, except as an argument of first, as the condition of an if, or as the filter of a pattern.",
  ["programs", "histories"], "generated programs with host functions that record every call and its arguments, some failing, in every position of an expression and of a block",
  "Order and laziness are visible only with functions that have effects, and must hold in every position; the tests only look at outputs.",
  ["src/expr.rs", "src/template.rs"],
  [("evaluation of calls, first, select", "src/expr.rs"), ("conditions", "src/template.rs")],
  DIFF, ASSUME, ["trace of host calls", "failure of a run"])

p("C06", "Variables live where they were set, and the nearest one counts",
  "A name refers to the innermost value given to it so far among the enclosing blocks, then to parameters; what is set within a block, branch, pass of a loop, case, pattern or template is gone after it, also when it failed or did not match, and does not change what was set outside of it (exports, which are set for the whole template, aside). A name or path that leads to nothing is a failure and never another value.",
  ["programs"], "generated programs with nested and shadowed lets, loops, patterns, blocks, template definitions, and paths into lists and maps",
  "Leaks and shadowing need combinations of constructs (a failed match inside of a loop inside of a block); the tests have none of failing blocks.",
  ["src/scope.rs", "src/expr.rs", "src/template.rs"],
  [("stack of scopes", "src/scope.rs"), ("paths into values", "src/expr.rs"), ("opening and closing of scopes", "src/template.rs")],
  DIFF, ASSUME, ["output", "trace of host calls", "exports"])

p("C07", "Templates in templates see their arguments, and hand back their value",
  "A template gives the same value however it is used: by its name as a command or as a block, when it was made global or is held by the host's manager, or with run, when it is a value, as defined ones are. Its named parameters and numbered ones are the arguments, and of the caller's variables it sees none. Its value is what it returned last, or otherwise its text; its return is of no effect on its caller, and does not keep what follows in it from running. Defined ones are there in their block only, global ones from then on for all, so that the host's manager holds just those in the end. It is asked for the names of commands that are no functions, as they are run, and for no others.",
  ["programs"], "generated programs that define, redefine, shadow, pass on and call templates, with returns in any depth of blocks, and with failures in them",
  "Calls, scopes and returns combine without bound; the tests have a few single calls.",
  ["src/expr.rs", "src/template.rs", "src/scope.rs", "src/temp_man.rs"],
  [("lookup of commands", "src/expr.rs"), ("return", "src/template.rs"), ("manager of templates", "src/temp_man.rs")],
  DIFF, "Recursion without end is a known finding. " + ASSUME, ["output", "trace of host calls", "exports"])

p("C08", "Exports and front matter hold what was exported",
  "The exports of a run are exactly the names exported by the parts that ran, and those set outside of any block, each with the value last given; a variable exported is also set for what follows. Those of templates it runs and of functions are not mixed in. The front matter of a template, had without running it, holds its exports outside of any block, each evaluated with those before it and without parameters or templates; those that fail are left out.",
  ["programs"], "generated programs with exports in any block, block forms of export, failing and repeated exports; texts starting with any mix of declarations",
  "What is exported depends on the path a program takes; the tests export two values at the top.",
  ["src/template.rs", "src/scope.rs"],
  [("exports", "src/template.rs"), ("front matter", "src/template.rs")],
  DIFF, ASSUME, ["map of exports", "front matter", "trace of host calls"])

p("C09", "A pattern matches just the values it describes, and captures their parts",
  "A switch or as matches a value just when its pattern describes it: literals by equality, captures anything (or what their own pattern describes), lists by the elements they start with, maps by the fields named, filters by their condition, which sees the value as @, being true. A match captures just the parts that were named, for that case only; the patterns of a case are alternatives, tried in order, and what one that did not match captured is gone.",
  ["inputs", "programs"], "generated patterns of any nesting, with values made to match, to almost match, or not to",
  "A pattern matches infinitely many values; the tests match about five.",
  ["src/pattern.rs", "src/parse/pattern.rs", "src/template.rs"],
  [("matching", "src/pattern.rs"), ("syntax of patterns", "src/parse/pattern.rs")],
  DIFF, ASSUME, ["output", "trace of host calls"])

p("C10", "A run depends on its inputs only, and leaves them as they were",
  "Running a template again, or calling a function again, at any time, in another order, after any others, in a copy of it, in another process, or in several threads at once gives the same output, exports and calls as at first. A run changes neither the template nor its parameters, and of a manager of templates that is shared only the templates it makes global.",
  ["histories", "schedules", "programs"], "generated programs repeated between others, in 2 to 5 threads released at once, and in sequences that share a manager",
  "Hidden state and races show up only in histories and schedules; the tests run each template once in one thread.",
  ["src/template.rs", "src/temp_man.rs", "src/func_man.rs", "src/scope.rs"],
  [("values instead of state", "src/template.rs"), ("manager of templates", "src/temp_man.rs")],
  "repetition monitor over histories and threads: results, traces of calls, templates, parameters and the manager are compared before and after",
  "Schedules are those the system gives; the code is safe Rust without shared state, so data races cannot be expressed in it. " + ASSUME, ["output", "exports", "trace of host calls", "state of the manager"])

p("C11", "Equality and order of values are consistent",
  "Equality is reflexive (but for NaN), symmetric, and tells any two values apart by type and content; numbers compare by their mathematical value whatever their types. Order is transitive, antisymmetric, agrees with equality and is the same for comparisons in templates: eq, neq, eq_any, gt, gte, lt and lte compare their first argument with each of the others.",
  ["inputs"], "pairs and triples of values of every type, nested, and numbers where floats are coarse",
  "Consistency is about all pairs and triples; the tests compare two small numbers.",
  ["src/tdata.rs", "src/funcs/bools.rs"],
  [("equality and order", "src/tdata.rs"), ("comparison functions", "src/funcs/bools.rs")],
  FUN, ASSUME, ["results of comparisons"])

p("C12", "Sorting gives an ordered permutation, and searching finds what is there",
  "Sorting gives just the elements it was given, in order; sorting by criteria orders by the first of them, then by the next among equals, up or down as each says, and keeps the order of elements that are equal in all. Searching a list sorted by a key by that key gives an element that has it (or its place) if there is one, and otherwise null.",
  ["inputs"], "lists of up to 5000 values of any kind or records, with 1 to 6 criteria over paths, in each direction",
  "Permutation, order and stability are about every list; the tests sort one list of three.",
  ["src/funcs/lists.rs", "src/tdata.rs"],
  [("sort, sort_on, bin_search, bin_get", "src/funcs/lists.rs"), ("order", "src/tdata.rs")],
  FUN, ASSUME, ["lists that come back"])

p("C13", "List functions take and give just the elements asked for",
  "list, append, map, len, get, slice, groups and index_of give just the elements at the places asked for, in their order: groups cut a list without losing or repeating anything (of one element each for a size of 0), and append puts single values and the elements of lists into one list. Places count from 0, in bytes for texts, where what would cut a character, or lies beyond the end, fails. A slice beyond the end, or of negative places, fails; getting an element or a key that is not there, or the index of what is not in a list, gives null. Nothing panics or wraps around.",
  ["inputs"], "lists, texts, maps and bytes of any length, with places inside, at and far beyond the ends",
  "Every bound, sign and length is an edge of its own; the tests have one slice.",
  ["src/funcs/lists.rs", "src/funcs/maps.rs", "src/funcs/strings.rs"],
  [("list functions", "src/funcs/lists.rs"), ("map", "src/funcs/maps.rs")],
  FUN, ASSUME, ["values that come back"])

p("C14", "Arithmetic is exact, or says that it cannot be",
  "add, sub, mul, div, mod, min and max of integers give the exact result (of divisions that towards zero) or fail, for signed and unsigned alike: they never wrap around, panic or pass through floats; with a float among them the result is that of floats. Division by zero of integers fails.",
  ["inputs"], "argument lists of any length of integers near every power of two, both signs, unsigned ones above the signed range, floats including the special ones, and values that are no numbers",
  "Overflow happens at the ends of ranges that the tests do not reach.",
  ["src/funcs/math.rs", "src/tdata.rs"],
  [("arithmetic", "src/funcs/math.rs"), ("conversions", "src/tdata.rs")],
  FUN + "; exact arithmetic in 128 bits as the oracle", ASSUME, ["values that come back"])

p("C15", "JSON written is JSON, and reads back as the same value",
  "What is written as JSON is JSON that another reader takes for the same value, and reading it gives the value back. Reading takes any JSON text, with whitespace and escapes of every kind, for what another reader takes it for, and refuses a text that is cut short or followed by something else.",
  ["inputs"], "values of every type nested, texts of JSON written in every style, and texts that are not quite JSON",
  "Round trips and escapes range over all texts; the tests have one object.",
  ["src/funcs/format.rs", "src/tdata.rs", "src/parse/expr.rs"],
  [("w_json, r_json", "src/funcs/format.rs"), ("reader", "src/parse/expr.rs")],
  FUN + "; serde_json as a second reader", "Nesting beyond the stack is a known finding. " + ASSUME, ["texts and values that come back"])

p("C16", "Escaped text cannot break out of markup, and unescapes to itself",
  "Text escaped for HTML or XML holds none of the characters that mean something to markup, outside of the entities it consists of; it unescapes to just the text it was made from, and everything else in it stays as it was.",
  ["inputs"], "texts of any characters, with markup, entities, quotes, in content and in attributes, in direct calls and in pages",
  "A single missing character or entity is a hole; the tests do not escape anything.",
  ["src/funcs/strings.rs", "src/funcs/svg.rs"], [("html_esc", "src/funcs/strings.rs"), ("xml_esc", "src/funcs/svg.rs")],
  FUN + "; an unescaper as the inverse", ASSUME, ["texts that come back"])

p("C17", "String functions keep every character they are not asked to change",
  "cat, join_with, split, str_contains, str_replace, str_replace_n, string_from_ints and regex do what their descriptions say for any Unicode text: splitting what was joined gives the parts, replacing touches just the places that match (n of them, if asked), a regex answers as the regex library does. Base64 decodes to just the bytes encoded, and what is not base64 is refused.",
  ["inputs"], "texts of any characters, with separators and needles that are empty, overlap or repeat",
  "Overlaps, empty needles and multi-byte characters are outside of what the tests do.",
  ["src/funcs/strings.rs", "src/funcs/bytes.rs", "src/funcs/path.rs"],
  [("string functions", "src/funcs/strings.rs"), ("base64", "src/funcs/bytes.rs")],
  FUN, ASSUME, ["values that come back"])

p("C18", "Word wrap keeps the text, the width, and whole words",
  "Wrapping a text gives lines that hold all of its characters but whitespace, in order, with none longer than the width in characters; newlines of the text end a line. Words lie between spaces, tabs and newlines, and one shorter than the width is never split, and a line is not ended while the next word would still fit with two characters to spare.",
  ["inputs"], "texts of any characters, words and whitespace, at widths from 0 to 150",
  "Widths, breaks and wide characters combine without end; the tests wrap two texts.",
  ["src/funcs/strings.rs"], [("word_wrap", "src/funcs/strings.rs")],
  FUN, ASSUME, ["lines that come back"])

p("C19", "Reading under a lock never leaves the folder",
  "With functions locked to a folder, no path a template gives (absolute, with \"..\", with a sibling's name that starts the same, with odd characters) reads, lists, or tells of anything that lies outside of the folder: such a path fails. A path that leads to something inside works.",
  ["inputs", "configurations"], "paths of every make over a tree inside and around the lock, with the lock given in any of its spellings, for each function",
  "Confinement is about every path; the tests try none outside.",
  ["src/funcs/folder.rs"], [("check of paths", "src/funcs/folder.rs")],
  "interception of the requests to the operating system (open, opendir, stat, ...) checked against the lock, along with results against a tree that is known",
  "Lexical confinement: symbolic links inside of the lock that lead outside are not covered. " + ASSUME, ["system requests", "values that come back"])

p("C20", "Writing under a lock changes nothing outside, and writes what it was given",
  "With writing locked to a folder, a path that leads out of it fails and changes nothing; a path inside has just the content given afterwards, with the folders leading to it made, and every other file as it was. A write that is refused leaves every file as it was; one that fails on the way, for lack of space say, is reported, and changes no other file.",
  ["inputs", "configurations", "histories"], "sequences of writes to paths of every make, with contents of any size, into a lock that is there or not, with files in the way of folders and folders in the way of files, on a disk that takes writes in pieces and can be full",
  "Confinement of writes is about every path and state of the folder; the tests write nothing.",
  ["src/funcs/write.rs", "src/funcs/folder.rs"], [("write", "src/funcs/write.rs"), ("check of paths", "src/funcs/folder.rs")],
  "interception of changes to the file system (those outside are refused and reported), and comparison of the whole tree with a model before and after, as an unprivileged user",
  "Lexical confinement as for reading. " + ASSUME, ["system requests", "content of the tree"])

p("C21", "File functions tell just what the files hold",
  "Reading gives the content of a file as it is, as text or as bytes; what is not text is no text; listing a folder gives each of its entries once; scanning it tells each file in it, and in its subfolders to the depth asked for, with the exports in its front matter, but for names that start with an underscore; is_file, is_dir and the dimensions of an image are those of the file. Free and locked functions agree, what is not there fails, and so does a reading that fails on the way, in however many pieces it comes; a free write leaves what was given, and a template loaded from a file is its text.",
  ["inputs", "configurations"], "trees with files of any content and name, empty ones, images, folders, links, missing and unreadable ones, read and written in pieces or with failures on the way, for each function, free or locked",
  "The tests touch no file.",
  ["src/funcs/folder.rs", "src/funcs/free_file.rs", "src/template.rs"],
  [("locked functions", "src/funcs/folder.rs"), ("free functions", "src/funcs/free_file.rs")],
  "online oracle over a generated tree that is known", ASSUME, ["values that come back", "content of the tree"])

p("C22", "Templates have no power that the host did not grant",
  "With the default functions only, no template reads or changes files, starts processes, reads the environment or opens connections; granting one kind of access grants nothing of the others. A name that was not granted is unknown and fails as such; it can be a template's. What debug is given goes to the standard error, a line each, and nowhere else; no other default function writes there.",
  ["programs", "configurations", "inputs"], "every default function with tempting arguments, generated programs, requests for each function in every position, under each combination of grants",
  "Absence of effects is about all programs; the tests observe no system requests.",
  ["src/funcs/mod.rs", "src/func_man.rs"], [("what each grant adds", "src/funcs/mod.rs")],
  "interception of the requests of the process to the operating system (files, processes, sockets, environment) while templates run", ASSUME, ["system requests", "names that are there"])

p("C23", "Commands get the arguments and input given, and their output comes back whole",
  "Running a command passes just the arguments given, with no shell in between, and just the input given, in the folder and the environment of the program; the output comes back whole, whatever its size and whether or not the command reads its input, and never waits for ever. A command that cannot start, or whose output is no text, fails; no process and no open file is left behind. An environment variable gives its value or the value meant to replace it.",
  ["inputs", "schedules", "fault_sequences"], "child processes that read and write in any order and size up to 2 MB, close their input, are killed, write what is no text; arguments of any characters; variables that are set, not set, or no text",
  "Deadlocks and lost output depend on sizes beyond a pipe's buffer and on the order of reads and writes; the tests run no command.",
  ["src/funcs/exec.rs"], [("exec, exec_stdin, env", "src/funcs/exec.rs")],
  "child process that reports what it got; monitors for waiting without end, for processes and open files left behind; size sweeps across the pipe buffer", ASSUME, ["output that comes back", "children", "open files"])

p("C24", "Data of the host looks in the template as it was given",
  "JSON, TOML, cards, lists, maps and values given as parameters by the host are, in the template, the same values with the same parts: each path leads to the part it names, and to a failure if there is none: a number names an element of a list and never a key, a name never an element, and there is nothing below a text, a number or a boolean. Parameters with names given along are found by them before what is in the value itself, and conversions to the data type of templates keep all.",
  ["inputs"], "data of each type the host can give, nested, with keys of any characters, and paths into them that lead somewhere or nowhere",
  "Each type has code of its own for parts and conversions; the tests use strings and two maps.",
  ["src/tparam.rs", "src/tdata.rs"], [("parameters of each type", "src/tparam.rs"), ("conversions", "src/tdata.rs")],
  FUN, ASSUME, ["values found by paths"])

p("C25", "A command is the function added last by its name, or else the template",
  "A command with a name that functions were added by calls the one added last, with just its arguments, and else the template of that name; a name of neither fails. first, select and run with a template belong to the language whatever is added. The functions listed are those there, in order, each with the description it was added with; a word picks those whose name or description has it.",
  ["histories", "configurations"], "sequences of adding functions in every way there is, and defaults, over names of functions, special forms and templates",
  "Precedence is about histories of additions; the tests add defaults once.",
  ["src/func_man.rs", "src/funcs/mod.rs", "src/expr.rs"], [("manager of functions", "src/func_man.rs"), ("lookup of commands", "src/expr.rs")],
  "trace monitor of which function is called, against a model of the history of additions", ASSUME, ["trace of calls", "list of functions"])

p("C26", "A literal means just the value it is written as",
  "Numbers, strings in each kind of quotes, dates, booleans, null, lists and maps written in a template, in a pattern or as data mean just the value written, whatever the whitespace; printing a value gives a text that means it, where there is a literal of it. What does not fit its type (too big, no such day) is refused, and never another value; a name that only begins like a literal is a name.",
  ["inputs"], "literals of every type in each of its spellings, nested, near every bound, and near misses",
  "Literals are an infinite language with many bounds; the tests read about ten.",
  ["src/parse/expr.rs", "src/tdata.rs", "src/parse/pattern.rs"], [("literals", "src/parse/expr.rs"), ("printing", "src/tdata.rs")],
  FUN, "Nesting beyond the stack is a known finding. " + ASSUME, ["values", "exported values"])

p("C27", "A block given to a command is its argument, rendered once",
  "A block with a command's name renders its content in the scope around it, once, and gives the text to the command as its argument, or, if arguments are written with the command, gives just those, evaluated with the text as @. What is let in it stays in it as in any block. @let and @export set the name to the text of their block.",
  ["programs"], "generated programs with blocks of any command nested in each other and in other constructs, with parameters, failures, lets and exports in them",
  "The number and order of evaluations shows only with effects, in every nesting; the tests use one block.",
  ["src/template.rs", "src/expr.rs"], [("blocks", "src/template.rs")],
  DIFF, ASSUME, ["output", "trace of host calls", "exports"])

p("C28", "A table has just the rows and cells of its text",
  "A text of rows gives a table with one row per line and one cell per part between bars, in order, head cells where the line says so, and the attributes given; a line that continues the one before (with a dash) adds its parts to the cells above them. As a block it gives the same.",
  ["inputs"], "tables of any number of rows and columns, with head and continued rows, blank lines, and cells of any characters",
  "Rows, kinds and widths combine; the tests make one table.",
  ["src/funcs/table.rs"], [("table", "src/funcs/table.rs")], FUN, ASSUME, ["text that comes back"])

p("C29", "Path functions agree with each other and with the system's paths",
  "parent, base_name, stem, full_stem, with_ext, join, base_name_sure and bread_crumbs give the parts of a path: parent joined with base name is the path, an extension replaces just the last one, the crumbs are all of the paths from the root (or from nothing) to it. On any text they end in a value or a failure.",
  ["inputs"], "paths of any depth and characters, absolute and relative, in one argument or several, and hostile texts",
  "Dots, separators and names range without end; the tests take one path apart.",
  ["src/funcs/path.rs"], [("path functions", "src/funcs/path.rs")], FUN, ASSUME, ["values that come back"])

p("C30", "Truth is the same everywhere, and logic functions follow it",
  "False, null, numbers equal to 0, and empty texts, lists and maps are false; dates, bytes and templates are neither true nor false; all else is true. Whether a value counts as true is the same for if, for filter and for and, or, nand and nor, which are true just when all, any, not all or none of their arguments are. first gives the first argument that is neither null nor a failure; select the one its index picks, or the first or second by its truth. type_of, is_null and is_num tell the type that the value has.",
  ["inputs", "programs"], "values of every type as conditions and arguments, and lists of arguments of any length with failures and nulls in them",
  "Agreement of separate pieces of code over all values; the tests use literals.",
  ["src/funcs/bools.rs", "src/expr.rs", "src/tdata.rs"], [("logic functions", "src/funcs/bools.rs"), ("first, select", "src/expr.rs"), ("truth", "src/tdata.rs")],
  FUN + "; reference interpreter for first and select", ASSUME, ["values that come back", "trace of host calls"])

p("C31", "Random numbers stay in range and reach all of it",
  "A random number lies in the range asked for, its low end included and its high end not, has the type of the range's ends, and each number (or element of a list) in a small range comes up in the end. An empty range fails.",
  ["inputs", "histories"], "ranges of each type, tiny, huge, empty and reversed, and lists, each drawn from repeatedly",
  "A range is left by chance, at its ends; the tests draw nothing.",
  ["src/funcs/random.rs"], [("rand", "src/funcs/random.rs")], "range monitor over repeated draws, and coverage of small ranges (odds of a false alarm below 1e-15)", ASSUME, ["numbers drawn"])

p("C32", "Filter keeps just the items its condition holds for",
  "filter gives those items of a list for which the expression is true, with the item as its first parameter, in their order and unchanged; an item for which it fails is dropped. The expression sees nothing of the template around it.",
  ["inputs", "programs"], "lists of any values by generated expressions over the item",
  "Every item by every expression; the tests filter one list.",
  ["src/funcs/lists.rs"], [("filter", "src/funcs/lists.rs")], DIFF, ASSUME, ["lists that come back"])

p("C33", "Markdown is rendered as the library renders it",
  "md gives the HTML of all of its arguments, in order, just as the Markdown library renders each with its standard options, and as a block that of its content.",
  ["inputs"], "texts of every construct of Markdown, nested and broken, in one argument or several",
  "The tests render one heading.",
  ["src/funcs/strings.rs"], [("md", "src/funcs/strings.rs")], "differential monitoring against pulldown-cmark", ASSUME, ["text that comes back"])

p("C34", "SVG attributes hold the numbers given, by the names described",
  "xy, xywh, cxyrr, xy12, fl_stk and font give the attributes they describe, each with the argument for it, in order, with the unit given after each number if there is one; with too few arguments they fail.",
  ["inputs"], "argument lists of any length and type, with and without units",
  "The tests call one of them.",
  ["src/funcs/svg.rs"], [("svg functions", "src/funcs/svg.rs")], FUN, ASSUME, ["text that comes back"])

p("C35", "Cards are read as the card library reads them",
  "Reading cards gives each card in order, with its name, number and data, just as the card library reads the text; what the library refuses is refused. A card that the host gives as a parameter is the same value, part by part. A field called Name or Num takes the place of the card's own in the value.",
  ["inputs"], "texts of cards with fields of every type, and texts changed from them",
  "The tests read one card.",
  ["src/funcs/format.rs", "src/tdata.rs", "src/tparam.rs"], [("r_card", "src/funcs/format.rs"), ("cards as data", "src/tdata.rs")],
  "differential monitoring against card_format, and against the fields a text was made from", ASSUME, ["values that come back", "trace of host calls"])

with open(f"{ROOT}/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["text"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]],
                        "observe_at": x["observe"], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [{
        "property": x["id"], "quick_cmd": f"./check.sh {x['id']} quick", "thorough_cmd": f"./check.sh {x['id']} thorough",
        "technique": "runtime monitoring: " + x["technique"], "level": "exploration", "level_note": x["note"]} for x in P],
    "not_applicable": [],
    "notes": "No hooks in /repo: all is observed through its public interface, and through requests to the operating system that the harness intercepts. The code under test is built with overflow checks and debug assertions.",
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
