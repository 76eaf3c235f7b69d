#!/usr/bin/env python3
# Generates /verif/properties.jsonl (single place where the property texts are edited).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","A recipe never starts before everything it depends on has been built",
 "In every build, whatever the number of workers and however threads are scheduled, the recipe for a source file is started only after the recipes of everything it depends on have finished successfully: generated files it names, targets reached through the project files it includes, extra dependencies attached to those, its containing directories, and a recipe file that is itself generated or lives in the project.",
 ["schedules","inputs","configurations"],"all dependency graphs up to 4 source files, 1-3 workers, all thread schedules up to a preemption bound",
 "The bundled tests build one fixed project under whatever schedule happens; an ordering error needs one particular graph shape together with one particular interleaving of worker threads.",
 ["core/db/task_list.cpp","core/db/task.cpp","core/db/dependency_graph.cpp","core/utils/graphutils.hpp","core/db/source_file_list.cpp"],
 [("task dispatch loop","core/db/task_list.cpp TaskList::process"),("dependency closure","core/db/dependency_graph.cpp getUseDepsRecursive"),("target deps derivation","core/db/source_file_list.cpp makeSourceFileInfo")],
 "start and end of every recipe process")
p("C02","Every build terminates and runs each task exactly once",
 "A build of an acyclic project always terminates, under every thread schedule, worker count and combination of recipe outcomes (success, non-zero exit, death by signal, recipe that cannot be launched); no task is ever run twice in one build, and when no recipe fails every out-of-date task has been run by the time maike exits.",
 ["schedules","fault_sequences","inputs"],"all schedules up to a preemption bound x all failure assignments on all small graphs",
 "Lost wake-ups, missed tasks and double dispatch depend on the interleaving of the dispatcher and the workers, and on which recipe fails when; a test observes one interleaving.",
 ["core/db/task_list.cpp","core/sched/event.hpp","core/sched/signaling_counter.hpp","core/sched/thread_pool.hpp","core/sched/thread_pool.cpp"],
 [("dispatcher wait/wake protocol","core/sched/event.hpp"),("outstanding-task counter","core/sched/signaling_counter.hpp"),("work queue","core/sched/thread_pool.cpp")],
 "exit of maike and the multiset of recipe executions")
p("C03","A failing recipe makes the build fail and nothing depending on it runs",
 "If any recipe exits with a non-zero status, is killed by a signal or cannot be started, maike exits with a non-zero status, reports the failing source file and the recipe's error output (or the recipe, when it cannot be started), starts no task that depends directly or indirectly on the failed one, and exits only after all recipes it started have ended. If no recipe fails and the project is valid, maike exits with status 0.",
 ["fault_sequences","schedules","inputs"],"all assignments of outcomes to tasks on small graphs, all schedules up to a bound",
 "Whether a dependent slips through depends on the order in which results are published relative to the dispatcher's scan; tests contain no failing build.",
 ["core/db/task_list.cpp","core/db/task.cpp","core/bin/maike.cpp","core/exec/exit_status.hpp","core/exec/execve.cpp"],
 [("failure publication","core/db/task_list.cpp TaskList::process"),("exit status translation","core/exec/execve.cpp communicateWith"),("exit code","core/bin/maike.cpp main")],
 "exit status, stderr and recipe executions")
p("C04","An incremental build produces the same targets as a clean build",
 "After any history of edits, touches, additions and deletions of source files, edits of recipes that belong to the project and deletions of targets, each leaving its own modification time, interleaved with builds, a build that succeeds leaves every target with exactly the content a build from scratch of the same sources would give it.",
 ["histories","inputs"],"all histories of edit/touch/delete/add/build steps up to a depth on all small dependency graphs",
 "Staleness bugs show only for a particular dependency path combined with a particular edit order; tests never rebuild after a change.",
 ["core/db/source_file_record.cpp","core/db/target_info.hpp","core/db/dependency.hpp","core/utils/fs.cpp","core/db/source_file_list.cpp"],
 [("up-to-date decision","core/db/source_file_record.cpp isUpToDate"),("mtime comparison","core/utils/fs.cpp isOlder")],
 "content of the target directory after each build")
p("C05","Up-to-date targets are not rebuilt",
 "A build that directly follows a successful build of an unchanged project runs no recipe, and after a change only tasks are run whose source file, recipe or something in their dependency closure was changed or rebuilt, whose target is missing, or whose last run failed (changes having distinct modification times); a source file marked to be rebuilt always is rebuilt in every build, and directories are only created when missing.",
 ["histories","inputs"],"all single and double changes on all small dependency graphs",
 "Over-rebuilding never makes a functional test fail, and minimality has to hold for each graph shape and each changed file.",
 ["core/db/source_file_record.cpp","core/db/task.cpp","core/db/dependency.hpp","core/db/target_info.hpp","core/utils/fs.cpp"],
 [("up-to-date decision","core/db/source_file_record.cpp isUpToDate"),("rebuild policy","core/db/task.cpp Task::runIfNecessary")],
 "set of recipe executions in each build")
p("C06","Cyclic and unresolvable dependencies are refused, valid projects never are",
 "A project in which some file depends on itself through any chain, or in which a file refers to a project or generated file that nobody provides, is refused with a diagnostic and a non-zero exit status before any target is built; a project with an acyclic, fully resolved dependency graph is never refused, however many shared, repeated or external dependencies it has.",
 ["inputs"],"all labelled directed graphs (self loops included) up to 4 nodes, each with every kind of edge and with dangling references",
 "Exactness of cycle detection is a statement over all graphs; the tests contain a handful.",
 ["core/utils/graphutils.hpp","core/db/dependency_graph.cpp","core/db/source_file_list.cpp"],
 [("graph traversal","core/utils/graphutils.hpp processGraphNodeRecursive"),("name resolution","core/db/dependency_graph.cpp resolve")],
 "exit status, stderr and recipe executions")
p("C07","Recipes are invoked with exactly the documented arguments",
 "Every compilation invokes the recipe with 'compile' and one JSON object whose source file, target names, compiler configuration, build information and log format are those of the task, and whose dependency list names every file in the task's dependency closure exactly once, each after the files it depends on itself, with the origin and extra attributes declared in the source. A source file without recipe is executed itself with the same arguments.",
 ["inputs","configurations"],"all small dependency graphs with all kinds of edges and attributes, all loader and compiler combinations of a small grammar",
 "Order and completeness of the dependency list matter to linking and must hold for all graph shapes; the tests check none of them.",
 ["core/db/source_file_record.cpp","core/db/dependency_graph.cpp","core/db/task.cpp","core/source_tree_loader/source_file_load_ctxt.cpp","core/db/dependency.cpp"],
 [("command construction","core/db/source_file_record.cpp makeBuildCommand"),("closure order","core/db/dependency_graph.cpp getUseDepsRecursive")],
 "argv of each recipe process")
p("C08","Target selection builds exactly what the selected targets need",
 "When targets are named on the command line, exactly the out-of-date tasks among the source files of those targets and everything those source files depend on are run, each once, and all of them are up to date afterwards; naming a target nobody defines is an error with non-zero exit status.",
 ["inputs","configurations"],"all subsets and orders of up to two targets of all small dependency graphs",
 "Selection must be exact for every target of every graph.",
 ["core/db/task_list.cpp","core/db/source_tree.cpp","core/bin/maike.cpp"],
 [("per-target task list","core/db/task_list.cpp TaskList::TaskList"),("target lookup","core/db/source_tree.cpp getTarget")],
 "set of recipe executions and target contents")
p("C09","Two sources claiming the same target are always diagnosed",
 "If two source files, or one source file twice, declare targets that denote the same output path, however the paths are spelled, maike refuses to build with a diagnostic naming the path and a source file claiming it, and runs no compilation; projects in which all target paths differ are never refused for this reason.",
 ["inputs"],"all assignments of a small set of target spellings to up to 3 source files in two directories",
 "The collision may arise from any pair of files and any spelling of the path.",
 ["core/db/source_file_list.cpp","core/source_tree_loader/source_file_load_ctxt.cpp"],
 [("unique insertion","core/db/source_file_list.cpp insertUnique"),("target name normalisation","core/source_tree_loader/source_file_load_ctxt.cpp makeTargetName")],
 "exit status, stderr and recipe executions")
p("C10","The source scan finds exactly the right files, in any directory order",
 "The set of files maike takes into account is exactly the set of files below the source directory not excluded by the name filter, the full-path filter (excluded directories are not entered) or a disabled recursion, each handled by the loader configured for its longest matching extension; the result is independent of directory order, worker count and thread schedule, and a file that cannot be opened or is malformed makes the build fail with a diagnostic naming it rather than being skipped.",
 ["inputs","schedules","configurations"],"all directory trees up to 5 entries over a small name alphabet x filter sets x directory orders x schedules up to a bound",
 "The scan is concurrent and order dependent; tests scan one directory in one order.",
 ["core/source_tree_loader/directory_scanner.cpp","core/source_tree_loader/input_filter.cpp","core/source_tree_loader/source_file_loader_delegator.cpp","core/utils/fs.hpp","core/utils/fs.cpp"],
 [("concurrent scan","core/source_tree_loader/directory_scanner.cpp processPath"),("loader choice","core/utils/fs.hpp matchLongestExtension")],
 "entries and targets maike reports and builds")
p("C11","C++ include scanning finds exactly the active include directives",
 "For every C++ source text the dependencies found are exactly the files named by its include directives with quotes or angle brackets outside comments, string literals and raw strings (white space and comments may surround the parts of a directive), with the right origin, no matter how the text is split over read buffers; text in comments, strings, raw strings or other directives never creates or hides a dependency. (Lines joined with a backslash at the end are outside this property.)",
 ["inputs"],"all token sequences up to a bound over an alphabet of comment, string, raw string and directive fragments, at all buffer-boundary alignments",
 "A scanner error depends on a particular sequence of delimiters; tests contain a few hand-written files.",
 ["core/source_file_info_loaders/cxx/source_file_loader.cpp","core/io/input_buffer.hpp"],
 [("scanner state machine","core/source_file_info_loaders/cxx/source_file_loader.cpp getDependencies")],
 "dependency edges of the loaded project")
p("C12","Tag extraction returns exactly the tag text at its original position",
 "For every source text the tags handed to the JSON parser are exactly the text following the tag marker on lines starting with it outside comments, strings and raw strings, every other character being dropped, with line numbers preserved; for rule files the tags are the whole file.",
 ["inputs"],"all token sequences up to a bound, at all buffer-boundary alignments, for each loader",
 "Same as for include scanning: needs particular delimiter sequences and buffer alignments.",
 ["core/source_file_info_loaders/cxx/source_file_loader.cpp","core/source_file_info_loaders/extension/source_file_loader.cpp","core/source_file_info_loaders/maikerule/source_file_loader.cpp","core/io/output_buffer.hpp"],
 [("tag filter state machine","core/source_file_info_loaders/cxx/source_file_loader.cpp filterInput")],
 "tag text and error line numbers")
p("C13","JSON input is accepted exactly when well formed and survives a round trip",
 "Reading JSON from any source yields the document's value when the text starts with a well-formed value, reports an error when the text is non-blank and malformed (repeated keys included) or truncated, and yields 'nothing' only for blank text, independently of how the input is split into reads; writing a value and reading it back gives the same value.",
 ["inputs"],"all token strings up to a bound x all ways to split them into two reads, all prefixes of sample documents",
 "Truncation at an arbitrary byte and buffer-boundary effects are not sampled by tests.",
 ["core/key_value_store/json_handle.cpp","core/key_value_store/json_handle.hpp"],
 [("reader callback","core/key_value_store/json_handle.cpp"),("writer callback","core/key_value_store/json_handle.hpp store")],
 "parsed value or reported error")
p("C14","Configuration files are merged left to right and dumped faithfully",
 "With several configuration files, objects are merged key by key, arrays are concatenated and a scalar of a later file replaces one of the same kind in an earlier file; values of different kinds for one key are reported; a dumped configuration read back gives the same configuration, and a configuration that cannot be used is reported rather than silently ignored.",
 ["inputs","configurations"],"all pairs and triples of small JSON objects over two keys and nesting depth two",
 "Merging is a function over all pairs of documents; tests check single examples.",
 ["core/key_value_store/compound.cpp","core/key_value_store/array.hpp","core/bin/config.cpp","core/source_tree_loader/config.cpp","core/source_file_info_loaders/config.cpp"],
 [("merge operator","core/key_value_store/compound.cpp operator|="),("config load","core/bin/config.cpp loadConfig")],
 "dumped configuration")
p("C15","Child processes are run faithfully, whatever they print and however they end",
 "Running a program passes the given arguments unchanged, returns its complete standard output and standard error for every output size and write pattern, and its exact exit code or signal; a program that cannot be launched is reported as an error carrying the launch error code. No run ever blocks because of another concurrent run, because the child reads its standard input, fills a pipe or closes its streams early, and no run leaves file descriptors or zombie processes behind.",
 ["schedules","inputs","fault_sequences"],"all scripts of a small child-program grammar, one and two concurrent runs, all schedules up to a preemption bound, all pipe/fork/exec faults",
 "Pipe inheritance between concurrent forks and pipe-capacity deadlocks depend on timing and on sizes.",
 ["core/exec/execve.cpp","core/exec/exit_status.hpp","core/exec/result.hpp","core/io/io_redirector.hpp"],
 [("fork/exec sequence","core/exec/execve.cpp execve"),("I/O pumps","core/exec/execve.cpp communicateWith")],
 "captured output, exit status, open descriptors, process table")
p("C16","The worker pool runs every submitted job exactly once and delivers its result",
 "Every job submitted to the worker pool is executed exactly once, before the pool's destruction completes, under every thread schedule and worker count; its result or exception is delivered to whoever waits for it, an exception never stops a worker, the first exception of fire-and-forget jobs can be collected exactly once, and no waiter waits forever.",
 ["schedules"],"all schedules up to a preemption bound of 1-3 workers with up to 4 jobs, including jobs submitting jobs and throwing jobs",
 "Needs particular interleavings of submission, waiting and shutdown.",
 ["core/sched/thread_pool.hpp","core/sched/thread_pool.cpp","core/sched/signaling_counter.hpp","core/sched/event.hpp","core/utils/unique_function.hpp"],
 [("queue and shutdown","core/sched/thread_pool.cpp"),("result hand-over","core/sched/thread_pool.hpp AsyncTaskResult")],
 "execution counts and delivered results")
p("C17","The in-memory pipe delivers the written bytes in order, then end of input",
 "Data written to the in-memory pipe between source scanner stages is read exactly once, unchanged and in order, for every split into writes and reads and every interleaving of one writer and one reader; end of input is reported only after everything written before it has been read, and a waiting reader is always woken.",
 ["schedules","inputs"],"all write/read size sequences over a small alphabet x all schedules up to a preemption bound",
 "Needs particular interleavings and chunk sizes.",
 ["core/io/fifo.hpp","core/io/reader.hpp","core/io/writer.hpp","core/io/input_buffer.hpp","core/io/output_buffer.hpp"],
 [("queue","core/io/fifo.hpp Fifo")],
 "bytes read")
p("C18","Inspection and dry runs change nothing; forced builds rebuild everything",
 "With the dry-run option maike reports every task that is out of date at that time but starts no compilation and changes no file; listing targets, printing the dependency graph, dumping the configuration, and printing help or version information start no compilation and change no file other than an output file given with the option; with the force option every task is run, in dependency order, even when up to date.",
 ["configurations","inputs","histories"],"all option combinations on all small graphs in every up-to-date/stale state",
 "Every option must be side-effect free in every project state.",
 ["core/bin/maike.cpp","core/exec/execve.cpp","core/db/task.cpp"],
 [("dry run","core/exec/execve.cpp LocalExecve"),("force","core/db/task.cpp Task::runIfNecessary")],
 "file system and recipe executions")
p("C19","The build log tells exactly what was done and can be replayed in a shell",
 "The log contains one contiguous entry per task handled, saying whether it succeeded, failed or was already up to date, together with that task's own output, and entries of concurrent tasks are never mixed; at the command log level each logged command, given to a POSIX shell, runs the recipe with exactly the same arguments, whatever characters they contain, and at the errors-only level successful and up-to-date tasks add no entry of maike's own, only what their recipes print.",
 ["schedules","inputs"],"all schedules up to a bound with concurrent tasks printing to both streams; all argument strings up to a bound over quoting characters",
 "Interleaving of log entries needs particular schedules, quoting needs particular characters.",
 ["core/db/compilation_log.cpp","core/exec/command.cpp"],
 [("log serialisation","core/db/compilation_log.cpp write"),("quoting","core/exec/command.cpp toString")],
 "stdout and stderr of maike")
p("C20","The command line is interpreted exactly as documented",
 "Every option with its value is recognised and takes effect as given, in any order; list values are split at unescaped commas with backslash taking the next character literally; unknown options, missing required values, values given to options without value and malformed numbers are refused with a diagnostic and non-zero exit status before anything is built.",
 ["inputs"],"all list strings up to a bound over separator and escape characters; all options x value shapes x pairs of options",
 "Parsing must be right for all strings; tests have a few.",
 ["core/cmd_line_parser/command_line.cpp","core/cmd_line_parser/command_line.hpp","core/bin/cmd_line_options.hpp","core/sched/thread_count.cpp","core/build/id.cpp","core/utils/system_time_stamp.cpp"],
 [("option lookup","core/cmd_line_parser/command_line.cpp collect_options"),("list splitting","core/cmd_line_parser/command_line.cpp next_array_token")],
 "accepted values and resulting build")
p("C21","Builds are free of data races and their result does not depend on scheduling",
 "No two threads of maike ever access the same memory concurrently without synchronisation when at least one of them writes, and the targets produced, the set of recipes run and the exit status of a build are the same under every thread schedule and worker count.",
 ["schedules"],"all schedules up to a preemption bound of scan and build phases with 1-3 workers, happens-before race detection on every memory access",
 "A race is visible only on schedules where the two accesses are unordered; ordinary test runs seldom meet them.",
 ["core/source_tree_loader/directory_scanner.cpp","core/source_tree_loader/command_dictionary.cpp","core/db/task_list.cpp","core/sched/thread_pool.hpp","core/exec/execve.cpp","core/db/compilation_log.cpp"],
 [("locking of shared maps","core/source_tree_loader/directory_scanner.cpp"),("task results","core/db/task_list.cpp")],
 "memory accesses, outcome of the build")
p("C22","Bundled recipes succeed exactly when the tools they run succeed",
 "Each bundled recipe exits with status 0 exactly when every tool it runs succeeded and with a non-zero status otherwise, for every position at which a tool may fail, is killed or is missing; it passes the requested files, include directories, options and libraries to the tools and leaves its target where maike expects it. (The recipe that reads the version control system is not covered.)",
 ["fault_sequences","inputs"],"every recipe x every action list x every failure position of the tools it calls",
 "The recipes are only ever run successfully by the build itself.",
 ["recipes/cxx_compiler.py","recipes/generic.py","recipes/copy_file.py","recipes/make_directory.py","recipes/make_lib.py","recipes/md2htmlpart.py","recipes/sass2css.py"],
 [("compile entry points","recipes/*.py")],
 "exit status, tool invocations and target files")
p("C23","Targets stay inside the target directory and mirror the source layout",
 "Every target is placed in the target directory at the path that mirrors its source file's place in the source directory, references starting with ./ are resolved relative to the referring file and others relative to the project root, for source files and generated files alike, whatever spelling of source and target directory is used; the resulting target set and dependencies do not depend on that spelling, and maike itself never modifies source files.",
 ["inputs","configurations"],"all directory layouts up to depth 2 x reference spellings x spellings of source and target directory",
 "Path arithmetic must be right for every combination of nesting and spelling.",
 ["core/source_tree_loader/source_file_load_ctxt.cpp","core/source_tree_loader/source_file_load_ctxt.hpp","core/build/info.hpp","core/bin/maike.cpp"],
 [("path mapping","core/source_tree_loader/source_file_load_ctxt.cpp prependSearchPath, makeTargetName"),("default target dir","core/bin/maike.cpp makeBuildInfo")],
 "target paths and resolved dependencies")
p("C24","Recipes are found, configured and overridden as declared",
 "A recipe name is looked up in the project first and in the installation second, a missing recipe is an error; each configured recipe is asked once for its effective configuration before any compilation and what it prints is what later compilations receive, whatever its size; a source file's own compiler declaration overrides the recipe and is merged over the default configuration; and the targets and dependencies a recipe reports when asked for tags count like those declared in the file.",
 ["inputs","configurations"],"all combinations of recipe locations, configuration outputs (empty, small, larger than a buffer, malformed, failing), overrides and tag queries",
 "The combinations of override, merge and output size are not sampled by tests.",
 ["core/db/compiler.cpp","core/db/compiler.hpp","core/source_tree_loader/command_dictionary.cpp","core/bin/config.cpp","core/source_tree_loader/source_file_load_ctxt.cpp"],
 [("recipe lookup","core/source_tree_loader/command_dictionary.cpp get"),("configure protocol","core/db/compiler.cpp configRecipe"),("merge","core/db/compiler.cpp operator|"),("tag query","core/db/compiler.cpp getTags")],
 "recipe invocations")
p("C25","After an interrupted or failed build, the next build repairs everything",
 "If a build is stopped between any two steps of its recipes, or any of its recipes fail or are killed, even after having written part of their targets, then a following build in which all recipes succeed leaves every target with the content a clean build would give it; no partial or stale target of a failed recipe is ever taken for up to date.",
 ["crash_points","fault_sequences","histories"],"all stopping points and all assignments of failure kinds (before, during, after writing the target) to tasks on small graphs, followed by a repair build",
 "Needs a failure at a particular point followed by another build.",
 ["core/db/task_list.cpp","core/db/task.cpp","core/db/source_file_record.cpp","core/db/target_info.hpp"],
 [("handling of failed tasks","core/db/task_list.cpp TaskList::process"),("up-to-date decision","core/db/source_file_record.cpp")],
 "content of the target directory after the second build")
p("C26","Target and dependency listings are exact",
 "Listing targets names every target of the project exactly once and nothing else; printing the dependency graph gives a Graphviz digraph that has an edge for exactly every dependency maike uses and can be read back whatever characters the names contain; both are the same on standard output and in an output file, before and after a build, and agree with what a build then does.",
 ["inputs","configurations"],"all acyclic graphs of the bounded families; names with every printable character; output to a stream or to a file; before and after a build",
 "The listings are derived from the whole resolved graph; the tests print none of them.",
 ["core/bin/maike.cpp","core/db/source_file_list.cpp","core/db/target_list.cpp","core/db/dependency_graph.hpp"],
 [("listing","core/bin/maike.cpp printTargets, printDepGraph"),("resolved graph","core/db/dependency_graph.cpp"),("targets","core/db/target_list.cpp")],
 "standard output and output files of maike")
p("C27","Loader settings decide targets and include origins as configured",
 "A file handled by the generic loader has exactly one target, in the directory mirroring its own, named by appending the configured extension to the file's name or, in replace mode, by replacing the last extension, whatever the file contains, and two files mapped to one name are refused; an include in quotes is taken as a generated file exactly when its name matches one of the configured expressions, otherwise as a project file; and the recipe of a library rule, or of a C++ file whose loader links, is given what its targets depend on, while other kinds of files are not.",
 ["inputs","configurations"],"all combinations of names, extensions, modes and directories; all sets of expressions over a set of includes; all loader kinds x action lists",
 "The result depends on combinations of names and settings; tests check single examples.",
 ["core/source_file_info_loaders/generic/source_file_loader.cpp","core/source_file_info_loaders/cxx/source_file_loader.cpp","core/source_file_info_loaders/config.cpp","core/source_file_info_loaders/lib/source_file_loader.hpp"],
 [("target name","core/source_file_info_loaders/generic/source_file_loader.cpp makeTargetName"),("origin of an include","core/source_file_info_loaders/cxx/source_file_loader.cpp get_origin"),("target dependencies","core/source_file_info_loaders/cxx/source_file_loader.cpp useTargetDeps")],
 "recipe invocations")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
