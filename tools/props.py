#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/props.py). Kept by hand."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": a}

PROPS = [
P("C01", "An incremental build gives the same result as a clean build",
  "After any history of edits (to sources, headers, build scripts, consumed files, templates, check scripts, -D options, variables and environment variables the scripts read) with a build after each, a successful build leaves every declared product (objects, configured files, products of run rules) with the content a build from an empty cache of the same project and options would give it. Every edit counts as seen once its modification time is later than the one recorded at the previous build. A rule therefore re-executes whenever a file it consumes, a variable value its commands or flags evaluate to, or the script that declares it has changed.",
  ["histories", "configurations"],
  "All projects of cc/run/configure/check/foreach/include/if rules over a small file set, all finite sequences of edits and builds with changing options and environment.",
  "The tests replay three fixed edit sequences (test6, test7, test8) on one hand-written project each and compare a log; the space of projects times histories is unbounded.",
  ["script.c", "deps.c", "node_cc.c", "node_run.c", "node_configure.c", "node_check.c", "node_subst.c"],
  [("rule re-execution decision from recorded dependencies", "script.c:node_resolve"),
   ("outdated test per dependency kind", "deps.c:deps_cur_is_outdated"),
   ("evaluated argument dependencies", "node_run.c:_run_build, node_cc.c:_cc_build"),
   ("owning script chain recorded as dependency", "script.c:node_add_unit_deps")],
  [("dependency record", "per-rule list of files/values/env seen by its last execution", "<cache>/.N.deps")],
  ["product files in the cache dir", "exit status"]),
P("C02", "An up-to-date project rebuilds nothing; an edit re-runs only its dependents",
  "Building again with nothing changed executes no compiler, no command and no check script (except rules marked always and uncached program-output evaluations) and leaves every product file untouched. After a change of one input, only the rules that transitively depend on that input execute, and within one compile rule only the sources that changed or that include the changed header are recompiled.",
  ["histories", "inputs"],
  "All projects as in C01, at every point of every edit history; every single-input edit.",
  "Tests 6-8 check a handful of fixed no-op rebuilds; over-building for other shapes (shared headers, generated inputs, foreach, nested scripts) is never observed.",
  ["script.c", "deps.c", "node_cc.c", "node_run.c", "node_configure.c", "node_check.c", "node_subst.c"],
  [("skip when all recorded dependencies are current", "script.c:node_resolve"),
   ("per-source recompilation list", "node_cc.c:_cc_on_resolve"),
   ("per-item foreach re-execution", "node_run.c:_run_on_resolve")],
  [("dependency record", "as C01", "<cache>/.N.deps")],
  ["invocation log of compiler, commands and check scripts", "product mtimes"]),
P("C03", "Rules run in dependency order, once, whatever their order in the script",
  "In any build each rule's commands start only after every rule producing something it consumes has finished, each rule executes at most once per build, and the products do not depend on the order in which the rules are written or on which included script they live in. A product claimed by two rules, a consumed file that no rule produces and that does not exist, and a dependency cycle each end the build with a non-zero exit status, and no rule that needs the missing or cyclic input has run.",
  ["programs", "configurations"],
  "All acyclic and cyclic dependency graphs of run/cc/configure rules, all permutations of their textual order, split over included scripts.",
  "The tests hold three tiny linear graphs in a fixed order; permutation, sharing, cycles and missing inputs are never exercised.",
  ["script.c", "node_run.c", "node_cc.c", "node_configure.c"],
  [("product registry", "script.c:node_product_add_raw"),
   ("on-demand build of producers", "script.c:node_consumes_resolve"),
   ("re-entrancy detection", "script.c:node_build")],
  [("products", "normalized product path to rule", "struct sctx.products")],
  ["command execution log", "exit status", "product files"]),
P("C04", "A failing command fails the build and is retried by the next one",
  "If any compiler, command, check script, program-output evaluation or error rule fails, the build exits non-zero, does not report success, and executes no rule that depends on the failed one. The failure is not recorded as done: a following build with nothing changed executes the failed step again and fails again while the cause remains, and once the cause is removed the build succeeds with the same products as a clean build.",
  ["fault_sequences", "histories"],
  "All projects with any subset of steps made to fail (by exit status or signal, missing program), in any sequence of failing and repaired builds.",
  "No existing test has a failing compile, command or check.",
  ["node_cc.c", "node_run.c", "node_check.c", "node_subst.c", "spawn.c", "script.c", "log.c"],
  [("exit status handling", "spawn.c:spawn_exit_code"),
   ("failed source recorded as outdated", "node_cc.c:_cc_on_resolve"),
   ("abort before dependency record is published", "script.c:node_resolve, log.c:akfatal")],
  None, ["exit status", "invocation log", "product files"]),
P("C05", "A build killed at any point is completed by the next build",
  "If a build is killed at an arbitrary moment, the next build of the same project succeeds and leaves the same products as a clean build; no half-written product, dependency record or cached value is taken as valid. This holds for any number of successive kills and with edits between them.",
  ["crash_points", "histories"],
  "All file-system-visible crash points of autark's own process (before and after each state-changing system call) and of its children, over generated projects.",
  "No test interrupts a build.",
  ["script.c", "deps.c", "utils.c", "node_cc.c", "node_configure.c", "node_subst.c", "node_install.c"],
  [("dependency record written to .tmp then renamed", "script.c:node_resolve"),
   ("cache file recorded as own dependency", "node_subst.c:_subst_value_proc_cache_on_resolve")],
  [("temporary and published records", ".N.deps.tmp/.N.env.tmp and .N.deps/.N.env", "<cache>")],
  ["product files after recovery", "exit status"]),
P("C06", "Variables, lists and scopes evaluate as documented",
  "For any script of set/let/env/meta rules, -D options and environment variables over nested included scripts, evaluating ${NAME [DEFAULT]} gives: the value from the current script, else from the nearest enclosing script, else from the environment, else the default; one value is a plain string, several form a list (empty values are no elements of a list), and a '..' prefix splices a list or a quoted, space-separated string (quotes and backslash respected). A set that refers to its own name extends the previous value, parent{} and root{} place the variable in the enclosing or root script, and joins concatenate their parts exactly.",
  ["programs", "configurations"],
  "All variable programs over nested scripts, with arbitrary printable values including spaces, quotes, '#', '=' and empty strings.",
  "test9 checks one fixed program; lookup over scopes, defaults, spreading and self reference combine unboundedly.",
  ["node_set.c", "node_subst.c", "node_join.c", "node_meta.c", "autark_core.c", "script.c", "utils.c", "map.c"],
  [("scope lookup", "script.c:node_env_get"), ("list building and spreading", "node_set.c:_set_value_get"),
   ("word splitting", "utils.c:utils_split_values_add"), ("scope selection", "node_set.c:_unit_for_set")],
  [("unit env", "variables of one script", "struct unit.env")],
  ["arguments received by an executed probe program", "echo output"]),
P("C07", "Conditions select exactly the branch the documentation prescribes",
  "For every condition built from ${}, @{}, library, defined, eq, prefix, contains, or, and, and '!' over arbitrary variable values, if{..} keeps exactly its body when the condition is true and exactly the else body otherwise, at any nesting, between any siblings and inside any rule body. The branch not taken has no effect whatever: it sets nothing, includes nothing, runs nothing and produces nothing.",
  ["programs", "inputs"],
  "All condition expressions up to a bounded depth over all combinations of undefined, empty, 0, plain, one-element and multi-element list values; all placements of if/else.",
  "The existing tests contain a single if with a defined condition.",
  ["node_if.c", "node_find.c", "script.c"],
  [("condition evaluation", "node_if.c:_if_cond_eval"), ("tree rewriting", "node_if.c:_if_pull_if, _if_pull_else")],
  None, ["which probe commands ran, with which arguments"]),
P("C08", "Any script text is parsed faithfully or rejected cleanly",
  "Every byte string given as a build script is either accepted or rejected with a syntax error and non-zero status, never with a memory error, hang or partial execution. For every accepted script the rules, their nesting, order and literals are exactly those written: quoting, escapes, comments and whitespace layout change only what the grammar says they change, so rendering a tree in any layout and parsing it gives the tree back.",
  ["inputs"],
  "All byte strings up to the 1 MB limit; all rule trees over arbitrary literals, in all renderings (quoting style, white space, comments, line ends).",
  "The two dump tests parse two small well-formed files.",
  ["scriptx.leg", "script.c", "utils.c", "ulist.c", "xstr.c", "pool.c"],
  [("grammar", "scriptx.leg"), ("comment removal", "script.c:_preprocess_script"),
   ("escape processing", "script.c:_text_escaped"), ("tree assembly", "script.c:_rule, _finish")],
  None, ["parsed tree dump", "sanitizer reports", "exit status"]),
P("C09", "configure substitutes templates exactly",
  "For any template text, configure writes a file in which every @NAME@ within a line is replaced by the variable's value (lists joined by spaces, undefined or empty by nothing), every //autarkdef line by the documented #define (or left as a comment, or 'define NAME 0' for undefined numeric ones) and every other byte, including line ends and lone '@', is unchanged. The output goes to the mirrored path in the cache without its .in suffix, keeps the template's permissions, and is regenerated whenever the template or any variable it mentions changes.",
  ["inputs", "histories"],
  "All template texts over lines mixing @..@ pairs, lone @, autarkdef forms, long lines and missing final newline; all variable assignments and changes of them.",
  "test7 covers one small template; unmatched delimiters, end-of-file forms, lists and re-configuration of one of several templates are not reached.",
  ["node_configure.c", "deps.c"],
  [("@..@ substitution", "node_configure.c:_line_replace_subs"), ("autarkdef", "node_configure.c:_line_replace_def"),
   ("variable dependency recording", "node_configure.c:deps_add_env calls")],
  None, ["generated file content and mode"]),
P("C10", "Check-script results are cached and refreshed exactly when inputs change",
  "Variables set by a check script with 'autark set' are visible to the script that checks them, with exactly the value given, both in the build that ran the check and in every later build that reuses its result. A check runs again exactly when a file it registered with 'autark dep' or an environment variable it registered with 'autark env', the check script itself, the arguments it is given or the build script that declares it (or one including that script) changed (always after 'autark dep -'); after such a re-run its variables are exactly those the new run set.",
  ["histories", "inputs"],
  "All check scripts made of set/dep/env commands with arbitrary arguments and values, all histories of changes of their inputs.",
  "test8 runs one check with two variables and a fixed sequence of changes.",
  ["node_check.c", "script.c", "autark_core.c", "deps.c"],
  [("set/dep/env commands", "autark_core.c:_on_command_set, _on_command_dep, _on_command_dep_env"),
   ("cached values", "script.c:node_resolve (NODE_RESOLVE_ENV_ALWAYS)"),
   ("environment dependency", "deps.c:deps_cur_is_outdated")],
  [("check env", "values set by the last run", ".autark/.N.env"), ("check deps", "registered inputs", ".autark/.N.deps")],
  ["probe command arguments", "check invocation log"]),
P("C11", "Commands receive exact arguments and their output is captured completely",
  "A program run by exec, a check, or @{}/@@{} receives exactly the evaluated arguments (each list element one argument, empty ones dropped, no re-splitting or quoting loss), runs in the documented working directory with the cache directories on PATH and environment changes of env rules visible, and shell gets the arguments joined by single spaces. The value of @{} and @@{} is the program's complete standard output without trailing white space, for any output size and pacing, and a command's output and error streams are passed through complete.",
  ["inputs", "schedules"],
  "All argument vectors of non-NUL bytes the language can express; all outputs from zero to hundreds of kilobytes in arbitrary write patterns interleaved over stdout and stderr.",
  "Tests use only a few short echo outputs; size and timing of the pipe are never varied.",
  ["spawn.c", "node_run.c", "node_subst.c", "node_check.c"],
  [("argument vector", "spawn.c:_spawn_arg_add"), ("pipe loop", "spawn.c:spawn_do"),
   ("environment and PATH", "spawn.c:_env_create, spawn_env_path_prepend")],
  None, ["argument, environment and cwd dump written by a probe program", "captured value"]),
P("C12", "install puts exactly the named files under the prefix, faithfully",
  "With -I or --prefix, after a successful build every install rule leaves each named file at PREFIX/DIR/<base name> with the same content and permissions, symbolic links as the same link, creating directories as needed; nothing else under the prefix changes, and nothing is written there when install is not requested or the build fails. Repeating the install after any edit of a named file, change of prefix or directory, or later modification or removal of an installed file restores exactly that state, and an unchanged repeat rewrites nothing.",
  ["histories", "configurations"],
  "All install rules over plain files, executables, symlinks, generated products; all sequences of edit, tamper, re-prefix and install.",
  "No test installs anything.",
  ["node_install.c", "autark_core.c", "deps.c", "paths.c"],
  [("copy and permission", "node_install.c:_install_file, _install_symlink"),
   ("installed copies as dependencies", "node_install.c:_install_dep_add"),
   ("directory options", "autark_core.c:autark_run")],
  None, ["tree under the prefix"]),
P("C13", "Builds and cleaning stay inside the cache directory",
  "Building, rebuilding, failing and cleaning never create, modify or delete anything in the project's source tree or elsewhere outside the cache directory (the default one or the one given by -H), unless a user command does so itself. Cleaning removes everything in the cache except its .autark-dist entry, does not follow symbolic links out of it, and a cache directory that is the project root or one of its parents is refused before anything is touched.",
  ["configurations", "inputs"],
  "All cache locations (relative, absolute, nested, outside, root, parent, with dots and trailing slashes), cache contents with links and special files, and project shapes.",
  "No test runs clean or a non-default cache directory.",
  ["autark_core.c", "paths.c"],
  [("cache resolution and refusal", "autark_core.c:autark_build_prepare"),
   ("confined removal", "paths.c:path_rm_cache, _rm_dir_recursive"),
   ("working directory selection", "autark_core.c:unit_ch_dir")],
  None, ["snapshot of the source tree and surroundings before and after"]),
P("C14", "Parallel compilation is bounded and equivalent to serial compilation",
  "For any -J value, any number of sources and any compile durations, the compile rule runs at most J (at least 1, at most 16) compilers at a time, compiles each stale source exactly once, waits for all of them before any consumer of an object starts, and yields the same objects, dependency behaviour and exit status as -J1. With sources left to compile it keeps J compilers busy rather than running one at a time.",
  ["schedules", "inputs"],
  "All J from 1 to beyond 16, source counts 1..40, duration and failure patterns chosen by the generator.",
  "The tests compile one or two files with the default level and never observe concurrency.",
  ["node_cc.c", "spawn.c", "autark_core.c"],
  [("job window", "node_cc.c:_cc_on_resolve"), ("-J parsing and clamping", "autark_core.c:autark_run")],
  None, ["start/end log of the compiler stand-in", "object files"]),
P("C15", "A macro call behaves as its body with the arguments written in place",
  "A call of a macro is equivalent to writing the macro's body at the place of the call with every &{N} replaced by the N-th argument and every &{} by the argument after the last one used, for any body, any arguments up to the limit, any number of calls, and calls inside macros. Missing arguments, invalid argument indexes, unknown macros and unbounded recursion end the build with an error, never a crash or hang.",
  ["programs"],
  "All macro bodies over the rule language with indexed and sequential placeholders, all call sequences and bounded nesting.",
  "test10 checks two or three fixed calls.",
  ["node_call.c", "node_macro.c", "script.c"],
  [("body cloning with substitution", "node_call.c:_call_macro_visit"), ("recursion bound", "node_macro.c:macro_register_call"),
   ("call initialisation", "script.c:node_init")],
  None, ["probe command arguments, compared with the hand-expanded script", "exit status"]),
P("C16", "foreach runs its body once per item with the variable bound to that item",
  "For any list and body, foreach executes the run rule's commands exactly once for each item, in list order, with the variable (also inside joins, path helpers and product names) equal to that item, written relative to the working directory of the command where the item itself is the consumed file, registers each item's products, and builds producers of consumed items first. On later builds an item is executed again exactly when its own consumed file changed or something common to all items changed.",
  ["programs", "histories"],
  "All item lists (empty, one, many; literals, spliced variables, compile results) and bodies using the variable in any expression, over edit histories.",
  "The tests contain no foreach project.",
  ["node_foreach.c", "node_run.c", "script.c", "node_subst.c"],
  [("item list", "node_foreach.c:_foreach_setup"), ("per item execution", "node_run.c:_run_on_resolve"),
   ("per item consumption", "node_run.c:_run_on_resolve_init")],
  None, ["probe command log", "products"]),
P("C17", "Path computation agrees with the file system's meaning of paths",
  "For any paths, normalisation yields an absolute path without '.', '..' or empty segments naming the same place; the relative path from A to B, followed from A, leads to B; a directory is reported as containing a path exactly when the path lies at or below it by whole segments. The path helpers S, SS, C and CC give the absolute path of their slash-joined arguments under the project root, script directory, cache root and script cache directory, and %{} strips the file extension (keeping the directory) and appends the replacement one.",
  ["inputs"],
  "All absolute and relative path strings over dots, repeated slashes, hidden names, shared prefixes and lengths up to the limit, all argument lists of the helpers.",
  "test2/test5 check a dozen fixed paths.",
  ["paths.c", "node_dir.c", "node_basename.c"],
  [("normalisation", "paths.c:path_normalize_cwd"), ("relativisation", "paths.c:path_relativize_cwd"),
   ("containment", "paths.c:path_is_prefix_for"), ("helpers", "node_dir.c:_dir_value, node_basename.c:_basename_value")],
  None, ["function results", "probe command arguments"]),
P("C18", "Recorded dependencies read back exactly and go stale exactly on change",
  "Any sequence of file, alias, variable, environment and value dependencies written to a dependency record reads back as the same sequence, with the same kinds, flags, names and values, for any values including lists, newlines, '=' and long texts. An entry is reported stale exactly when its file is missing or modified later than recorded, or its variable no longer has the recorded value, or it was recorded as always stale.",
  ["inputs", "histories"],
  "All sequences of entries with arbitrary names, values up to hundreds of kilobytes, and later changes of files and variables.",
  "test3 writes and reads a few fixed entries.",
  ["deps.c", "utils.c"],
  [("record format", "deps.c:_deps_add, deps_cur_next"), ("staleness", "deps.c:deps_cur_is_outdated")],
  [("record line", "type, flags, alias, resource, serial", "deps file")],
  ["entries read back"]),
P("C19", "Core containers and string utilities behave like their models",
  "For any sequence of operations the hash map behaves as a dictionary (including growth, shrinkage, replacement, removal and iteration), the array list as a sequence, the string builder as byte-string concatenation and the pool as independent zero-interference allocations. No sequence causes a memory error, and word splitting, number parsing and list iteration agree with their reference definitions.",
  ["inputs", "histories"],
  "All operation sequences with arbitrary keys, values, indexes and sizes within each operation's stated preconditions.",
  "test1 and others insert a few fixed elements; growth, removal with back-shift and mixed sequences are not explored.",
  ["map.c", "ulist.c", "xstr.c", "pool.c", "utils.c"],
  [("map", "map.c"), ("list", "ulist.c"), ("string builder", "xstr.c"), ("pool", "pool.c"), ("splitting", "utils.c:utils_split_values_add")],
  None, ["results of every operation against the model", "sanitizer reports"]),
P("C20", "Every header a source really includes triggers its recompilation",
  "After compiling, a change of any file the compiler reported as a prerequisite of a source (directly or transitively included headers, generated headers, included source files, names with several dots or directories, very long or wrapped lists) makes the next build recompile that source, and a change of a file that is no prerequisite of any source recompiles nothing. This holds for objects compiled in earlier builds and not recompiled since.",
  ["inputs", "histories"],
  "All include graphs over headers and sources in several directories, prerequisite lists from one to thousands of entries, all later edits.",
  "Only test6/test7 have a single header each.",
  ["node_cc.c", "deps.c"],
  [("prerequisite file parsing", "node_cc.c:_cc_deps_MMD_add"), ("filter", "node_cc.c:_cc_deps_MMD_item_add"),
   ("prerequisite staleness", "deps.c:deps_cur_is_outdated DEPS_TYPE_ALIAS")],
  None, ["compiler invocation log after each edit"]),
P("C21", "@@{} output is cached until its command, arguments or script change",
  "@@{PROGRAM ARGS} runs its program in the first build that evaluates it and afterwards only when the evaluated program or arguments, the declaring scripts or the stored output change; otherwise every later build sees byte-for-byte the value of the last run without running it. @{PROGRAM ARGS} always reflects a fresh run of the current build, executed at most once per occurrence in a build.",
  ["histories", "inputs"],
  "All argument expressions and outputs, all histories of argument, script and environment changes.",
  "No test uses the cached form across two builds.",
  ["node_subst.c", "script.c", "deps.c"],
  [("cached evaluation", "node_subst.c:_subst_value_proc_cache"), ("fresh evaluation", "node_subst.c:_subst_value_proc")],
  [("cached output", "complete output of the last run", "<cache>/.N.cache")],
  ["program invocation log", "value seen by a probe"]),
P("C22", "Command line options reach the build and bad ones are refused",
  "Every -DNAME[=VALUE] makes NAME evaluate to VALUE (empty if omitted) in the root script unless a script sets it without referring to it, -l lists exactly the declared options with their descriptions without building anything, and -J, -C, -H, -R and the install directory options take effect as documented in any combination and order. An invalid option or number, a missing build script or an unreadable include ends with a non-zero status and a message, and never as a success.",
  ["inputs", "configurations"],
  "All combinations and orders of options with arbitrary values, declared options with arbitrary descriptions.",
  "The tests call the library entry points and never parse a command line.",
  ["autark_core.c", "node_option.c", "main.c"],
  [("option parsing", "autark_core.c:autark_run"), ("option values", "autark_core.c:_build"), ("listing", "node_option.c:node_option_setup, autark_core.c:_options")],
  None, ["stderr/stdout", "exit status", "probe arguments"]),
P("C23", "File globbing and library lookup return exactly the matching files",
  "'autark glob' prints exactly the files matching each pattern, sorted per pattern, relative to the chosen directory, and nothing when none match. library{NAME files} gives the absolute path of the first named file found in the documented directories in their documented order and is false in a condition when none exists, storing the result in the named scope.",
  ["inputs", "configurations"],
  "All directory contents and patterns; all placements of library files over the search directories.",
  "No test covers either.",
  ["autark_core.c", "node_find.c"],
  [("glob", "autark_core.c:_on_command_glob"), ("search order", "node_find.c:_library_find")],
  None, ["stdout of autark glob", "probe arguments"]),
P("C24", "Rules take effect by phase and in the order they are written; a failure ends the build",
  "A build goes through the phases init, setup, build and post-build. In each phase the rules of the main script and of the included scripts take effect in the order of the expanded text, from the top to the bottom; in the build phase a rule is moved ahead only if a rule above it consumes its products. A condition sees what the rules above it have set (options, set, variables of checks), and nothing below. A branch that is not taken has no effect in any phase, including error rules and includes of missing or malformed scripts in it. A failing check, an active error rule (its message is printed), a failing command or an unresolved consumed file end the build with a non-zero status: nothing below takes effect, no later phase runs and nothing is installed. Files are installed and run-on-install rules execute only if installation is asked for, after everything has been built; run-on-install rules then execute at every such build, in the order written.",
  ["histories", "configurations"],
  "All trees of scripts with echo, check, set, if/else, include, in-sources, run, foreach, macro and call, install, run-on-install and error rules, with every combination of failures, and all histories of builds with and without installation.",
  "Tests look at final products; the order of effects, the phases and what happens after a failure are hardly observed.",
  ["script.c", "node_if.c", "node_echo.c", "node_error.c", "node_run.c", "node_include.c", "node_check.c", "node_install.c"],
  [("phases", "script.c:script_build, node_init, node_setup, node_build, node_post_build"), ("conditions at initialisation", "node_if.c"), ("run-on-install", "node_run.c")],
  [("phase flags", "which phase a rule has been through", "script.h:NODE_FLG_INIT, NODE_FLG_SETUP, NODE_FLG_BUILT, NODE_FLG_POST_BUILT")], ["console messages and invocation log in one ordered stream", "exit status", "installed files"]),
P("C25", "The self-contained build.sh behaves like the program",
  "The build.sh which is made from the sources compiles, and what it compiles is the same program. A call of build.sh, from any directory, by relative or absolute path, through the search path, a symbolic link or a shell, in a directory and with a cache directory of any name, has the effect, output and exit status of a call of the program in the directory of build.sh with the same arguments and environment. The executable is compiled only if it is missing, damaged or of another version, and kept by a clean build; if that fails, build.sh ends with a non-zero status, nothing of the project is executed, and the next call tries again.",
  ["histories", "configurations", "inputs"],
  "All histories of calls of build.sh (way of calling, arguments, environment, compilers) with edits, replaced executables, newer versions and failures in between; and all cases of C01, C09, C11, C12, C15, C16, C21 and C24 for the program which it compiles.",
  "No test compiles the single-file program or runs build.sh.",
  ["amalgamator.sh", "main.c", "autark_core.c"],
  [("single-file source and build.sh", "amalgamator.sh"), ("version handshake", "autark_core.c: -v"), ("kept executable", "paths.c:path_rm_cache")],
  [("executable", "compiled program of build.sh", "AUTARK_HOME/autark")], ["output, exit status, executed commands, files", "calls of the compiler"]),
P("C26", "A build which runs into a failing system call fails or is right, and the next one repairs it",
  "If a system call of autark fails during a build, because there is no space, an input/output error, no process or no descriptor, once or lastingly, then the build either ends with a non-zero status or leaves the same products, and the same installed files (content, mode, modification time), as if nothing had happened; a read which fails is not taken as the end of the file. In both cases the builds after that, without the fault, succeed and give the products of a clean build, also after edits: no product or record which was not written completely is taken as valid. The number of rules, sources, scripts and files of a project is not limited by the number of files which may be open at a time.",
  ["fault positions", "histories"],
  "Every call of open, read, write, close of streams, rename, unlink, mkdir, symlink, fchmod, futimens, pipe, fork and exec of any build or installation of any project with any history, failing once or (no space) from then on, with the edits after it; all numbers of rules of each kind under a limit of open files.",
  "The tests never see a failing call; the outcome depends on which of the hundreds of calls of a build fails.",
  ["deps.c", "script.c", "node_configure.c", "node_cc.c", "node_check.c", "autark_core.c", "utils.c", "spawn.c"],
  [("records are written aside and renamed", "script.c:node_resolve"), ("errors of written records", "deps.c:deps_close"), ("configured files", "node_configure.c:_process_file"), ("results of check commands", "autark_core.c:_on_command_set")],
  [("dependency record", "as C01", "<cache>/.N.deps")], ["exit status", "products of this and of the following builds"]),
]

if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(PROPS))
