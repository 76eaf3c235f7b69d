From d18af35f95e0e568f059a8c668e21d0c7079fd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 01/27] fix: child processes inherit no pipe ends, see end of
 input on stdin and are reaped when the launch fails

---
 core/exec/execve.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/exec/execve.cpp b/core/exec/execve.cpp
index a634dd4..9477c74 100644
--- a/core/exec/execve.cpp
+++ b/core/exec/execve.cpp
@@ -18,6 +18,7 @@
 #include <cstddef>
 #include <mutex>
 #include <array>
+#include <stdexcept>
 
 namespace
 {
@@ -27,7 +28,7 @@ namespace
 		Pipe()
 		{
 			int fds[2];
-			if(pipe(fds) == -1) { throw "Failed to create pipe"; }
+			if(pipe2(fds, O_CLOEXEC) == -1) { throw std::runtime_error{"Failed to create pipe"}; }
 			m_read_end = fds[0];
 			m_write_end = fds[1];
 		}
@@ -132,12 +133,13 @@ namespace
 
 
 	Maike::Exec::ExitStatus communicateWith(
-	   pid_t pid, Maike::Io::Redirector const& io_redirector, int stdin, int stdout, int stderr)
+	   pid_t pid, Maike::Io::Redirector const& io_redirector, Pipe& stdin, int stdout, int stderr)
 	{
 		signal(SIGPIPE, SIG_IGN);
 		std::thread stderr_proc{read, io_redirector.handle(), stderr, io_redirector.stderr()};
 		std::thread stdout_proc{read, io_redirector.handle(), stdout, io_redirector.stdout()};
-		write(io_redirector.handle(), stdin, io_redirector.stdin());
+		write(io_redirector.handle(), stdin.writeEnd(), io_redirector.stdin());
+		stdin.closeWriteEnd();
 
 		int status;
 		if(::waitpid(pid, &status, 0) == -1) { abort(); }
@@ -212,6 +214,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	uint32_t val{};
 	if(auto n = exec_err.read(&val, sizeof(val)); n == sizeof(val))
 	{
+		unusedResult(::waitpid(pid, nullptr, 0));
 		errno = val;
 		std::string msg{"Failed to launch '"};
 		msg += executable;
@@ -224,7 +227,7 @@ Maike::Exec::ExitStatus Maike::Exec::execve(fs::path const& executable,
 	stdout.closeWriteEnd();
 	stderr.closeWriteEnd();
 
-	return communicateWith(pid, io_redirector, stdin.writeEnd(), stdout.readEnd(), stderr.readEnd());
+	return communicateWith(pid, io_redirector, stdin, stdout.readEnd(), stderr.readEnd());
 }
 
 namespace
-- 
2.43.0


From 9bdc86be3e7fcdf8592fd04b67af9b43ff692f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:45 +0000
Subject: [PATCH 02/27] fix: a task that ends with an exception counts as
 failed instead of leaving the build waiting forever

---
 core/db/task_list.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index b53f714..1036215 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -95,21 +95,28 @@ size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
 				                 task_results = m_results.get(),
 				                 at_exit = ScopeExitHandler{[&e]() { e.set(); }}]() mutable {
 					auto const index = task.node().id().value();
-					if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
+					try
 					{
-						auto const build_failed = failed(*result);
-						compilation_log.write(task, *result);
-						if(build_failed)
+						if(auto result = task.runIfNecessary(force_recompilation, invoker); result)
 						{
-							std::string msg{task.node().path()};
-							msg += ": Compilation failed";
-							task_results[index] = TaskResult::Failure;
-							throw std::runtime_error{std::move(msg)};
+							auto const build_failed = failed(*result);
+							compilation_log.write(task, *result);
+							if(build_failed)
+							{
+								std::string msg{task.node().path()};
+								msg += ": Compilation failed";
+								throw std::runtime_error{std::move(msg)};
+							}
+						}
+						else
+						{
+							compilation_log.write(task);
 						}
 					}
-					else
+					catch(...)
 					{
-						compilation_log.write(task);
+						task_results[index] = TaskResult::Failure;
+						throw;
 					}
 					task_results[index] = TaskResult::Success;
 				});
-- 
2.43.0


From 2660675946741c14e0e1099da27893a1186041bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 03/27] fix: targets left behind by a failed recipe are not
 taken for up to date

---
 core/db/task.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/core/db/task.cpp b/core/db/task.cpp
index b518e2b..6e4f449 100644
--- a/core/db/task.cpp
+++ b/core/db/task.cpp
@@ -2,6 +2,9 @@
 
 #include "./task.hpp"
 
+#include <algorithm>
+#include <system_error>
+
 Maike::Db::Task::Task(DependencyGraph const& g,
                       SourceFileRecordConst node,
                       Build::Info const& build_info,
@@ -12,6 +15,24 @@ Maike::Db::Task::Task(DependencyGraph const& g,
 {
 }
 
+namespace
+{
+	// A recipe that fails may already have written its targets. Make sure that they are not taken for up
+	// to date by the next build.
+	void markTargetsOutOfDate(Maike::Db::SourceFileRecordConst const& node)
+	{
+		std::error_code ec{};
+		auto const src_time = last_write_time(node.path(), ec);
+		if(ec) { return; }
+		auto const& targets = node.sourceFileInfo().targets();
+		std::for_each(std::begin(targets), std::end(targets), [&node, src_time](auto const& item) {
+			std::error_code ec{};
+			if(item.name() != node.path() && is_regular_file(item.name(), ec))
+			{ last_write_time(item.name(), src_time, ec); }
+		});
+	}
+}
+
 std::optional<Maike::Exec::Result> Maike::Db::Task::runIfNecessary(ForceRecompilation force,
                                                                    Invoker invoker)
 {
@@ -21,6 +42,7 @@ std::optional<Maike::Exec::Result> Maike::Db::Task::runIfNecessary(ForceRecompil
 	{
 		auto result = invoker.execve(m_cmd);
 		m_t_completed = Clock::now();
+		if(failed(result)) { markTargetsOutOfDate(m_node); }
 		return result;
 	}
 	m_t_completed = Clock::now();
-- 
2.43.0


From 9609e6e201129ede8466aa6dbd2d2340f6b975a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 04/27] fix: log no empty line for an up-to-date task at log
 level errors

---
 core/db/compilation_log.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index 6708e9f..8b31758 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -102,7 +102,7 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task)
 		case LogLevel::Errors: break;
 	}
 
-	stdout_buff += '\n';
+	if(std::size(stdout_buff) > 0) { stdout_buff += '\n'; }
 
 	std::lock_guard lock{m_output_mutex};
 	fputs(stdout_buff.c_str(), stdout);
-- 
2.43.0


From 5f4db302afb9c4d27e6db0b4044ff0fb91ee7258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:57 +0000
Subject: [PATCH 05/27] fix: quote logged commands so that a POSIX shell
 reproduces every argument

---
 core/exec/command.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index bf14826..f482d5b 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -12,8 +12,11 @@ namespace
 	{
 		std::string ret{"'"};
 		std::for_each(std::begin(str), std::end(str), [&ret](auto ch_in) {
-			if(ch_in == '\\' || ch_in == '\'') { ret += '\\'; }
-			ret += ch_in;
+			if(ch_in == '\'') { ret += "'\\''"; }
+			else
+			{
+				ret += ch_in;
+			}
 		});
 		ret += "'";
 
-- 
2.43.0


From 9b45d9c552658980ec014775c6b5c9c23c71239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 06/27] fix: read configure and get_tags output beyond the
 first buffer

---
 core/db/compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index 7aa9e8f..fe3c618 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -47,6 +47,7 @@ namespace
 		auto const bytes_left = std::size(reader.buffer.get()) - reader.read_offset;
 		auto const bytes_to_read = std::min(n, bytes_left);
 		memcpy(output, reader.buffer.get().data() + reader.read_offset, bytes_to_read);
+		reader.read_offset += bytes_to_read;
 
 		return bytes_to_read;
 	}
-- 
2.43.0


From 153024e66134a3f3f432452d3dbe7a611165e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:20 +0000
Subject: [PATCH 07/27] fix: do not drop the last characters of a JSON text
 that ends without a closing bracket

---
 core/key_value_store/json_handle.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/key_value_store/json_handle.cpp b/core/key_value_store/json_handle.cpp
index eaf5906..186f12f 100644
--- a/core/key_value_store/json_handle.cpp
+++ b/core/key_value_store/json_handle.cpp
@@ -31,7 +31,7 @@ namespace
 	class ReadHelper
 	{
 	public:
-		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}
+		explicit ReadHelper(Maike::Io::Reader reader): m_buffer{reader}, m_has_data{false}, m_eof{false}
 		{
 		}
 
@@ -39,10 +39,14 @@ namespace
 		{
 			size_t n_written = 0;
 			auto const buffer_init = buffer;
-			while(n_written != n)
+			while(n_written != n && !m_eof)
 			{
 				auto ch_in = m_buffer.getchar();
-				if(ch_in == -1) { return 0; }
+				if(ch_in == -1)
+				{
+					m_eof = true;
+					break;
+				}
 
 				*buffer = static_cast<std::byte>(ch_in);
 				++buffer;
@@ -64,6 +68,7 @@ namespace
 	private:
 		Maike::Io::InputBuffer<Maike::Io::Reader> m_buffer;
 		bool m_has_data;
+		bool m_eof;
 	};
 }
 
-- 
2.43.0


From 57a642357dba1e75ecaf49de9c12b0295739b1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:46 +0000
Subject: [PATCH 08/27] fix: run tasks shared by several selected targets only
 once

---
 core/db/source_tree.cpp | 33 +++++++++++++++++-------------
 core/db/task_list.cpp   | 45 ++++++++++++++++++++++++-----------------
 core/db/task_list.hpp   |  4 +++-
 3 files changed, 49 insertions(+), 33 deletions(-)

diff --git a/core/db/source_tree.cpp b/core/db/source_tree.cpp
index befd619..1deb11d 100644
--- a/core/db/source_tree.cpp
+++ b/core/db/source_tree.cpp
@@ -8,6 +8,8 @@
 #include "core/utils/graphutils.hpp"
 #include "core/sched/signaling_counter.hpp"
 
+#include <algorithm>
+#include <functional>
 #include <list>
 #include <thread>
 #include <atomic>
@@ -47,10 +49,13 @@ Maike::Db::TaskCounter Maike::Db::compile(SourceTree const& src_tree,
                                           Sched::ThreadPool& workers,
                                           fs::path const& target_name)
 {
-	auto const& target = getTarget(src_tree, target_name);
-	return TaskCounter{
-	   TaskList{src_tree.dependencyGraph(), build_info, compilation_log, target}.process(
-	      workers, invoker, force_recompilation)};
+	return compile(src_tree,
+	               build_info,
+	               invoker,
+	               compilation_log,
+	               force_recompilation,
+	               workers,
+	               std::vector<fs::path>{target_name});
 }
 
 Maike::Db::TaskCounter Maike::Db::compile(SourceTree const& src_tree,
@@ -61,15 +66,15 @@ Maike::Db::TaskCounter Maike::Db::compile(SourceTree const& src_tree,
                                           Sched::ThreadPool& workers,
                                           std::vector<fs::path> const& targets)
 {
-	TaskCounter n{0};
-	std::for_each(
-	   std::begin(targets),
-	   std::end(targets),
-	   [&n, &src_tree, &build_info, invoker, &compilation_log, force_recompilation, &workers](
-	      auto const& target_name) {
-		   n += compile(
-		      src_tree, build_info, invoker, compilation_log, force_recompilation, workers, target_name);
-	   });
+	std::vector<std::reference_wrapper<Target const>> selection;
+	std::transform(std::begin(targets),
+	               std::end(targets),
+	               std::back_inserter(selection),
+	               [&src_tree](auto const& target_name) {
+		               return std::cref(getTarget(src_tree, target_name));
+	               });
 
-	return n;
+	return TaskCounter{
+	   TaskList{src_tree.dependencyGraph(), build_info, compilation_log, selection}.process(
+	      workers, invoker, force_recompilation)};
 }
\ No newline at end of file
diff --git a/core/db/task_list.cpp b/core/db/task_list.cpp
index 1036215..22a5aa3 100644
--- a/core/db/task_list.cpp
+++ b/core/db/task_list.cpp
@@ -7,6 +7,8 @@
 #include "core/sched/signaling_counter.hpp"
 #include "core/sched/event.hpp"
 
+#include <algorithm>
+
 Maike::Db::TaskList::TaskList(DependencyGraph const& graph,
                               Build::Info const& build_info,
                               CompilationLog& compilation_log):
@@ -33,27 +35,34 @@ Maike::Db::TaskList::TaskList(DependencyGraph const& graph,
 Maike::Db::TaskList::TaskList(DependencyGraph const& graph,
                               Build::Info const& build_info,
                               CompilationLog& compilation_log,
-                              Target const& target):
+                              std::vector<std::reference_wrapper<Target const>> const& targets):
    m_results{std::make_unique<std::atomic<TaskResult>[]>(Db::size(graph))},
    m_compilation_log{compilation_log}
 {
-	auto const& node = getNode(graph, target.sourceFilename());
-	processGraphNodeRecursive(
-	   [&graph,
-	    &build_info,
-	    log_format = m_compilation_log.get().outputFormat(),
-	    task_results = m_results.get(),
-	    &tasks = m_tasks](SourceFileRecordConst const& node, auto const&...) {
-		   if(std::size(node.sourceFileInfo().targets()) == 0)
-		   {
-			   task_results[node.id().value()] = TaskResult::Success;
-			   return;
-		   }
-		   task_results[node.id().value()] = TaskResult::Pending;
-		   tasks.push_back(Task{graph, node, build_info, log_format});
-	   },
-	   graph,
-	   node);
+	// Targets may share dependencies. Make sure that a shared dependency is only added once.
+	std::vector<bool> added(Db::size(graph));
+	std::for_each(std::begin(targets), std::end(targets), [&](Target const& target) {
+		auto const& node = getNode(graph, target.sourceFilename());
+		processGraphNodeRecursive(
+		   [&graph,
+		    &build_info,
+		    &added,
+		    log_format = m_compilation_log.get().outputFormat(),
+		    task_results = m_results.get(),
+		    &tasks = m_tasks](SourceFileRecordConst const& node, auto const&...) {
+			   if(added[node.id().value()]) { return; }
+			   added[node.id().value()] = true;
+			   if(std::size(node.sourceFileInfo().targets()) == 0)
+			   {
+				   task_results[node.id().value()] = TaskResult::Success;
+				   return;
+			   }
+			   task_results[node.id().value()] = TaskResult::Pending;
+			   tasks.push_back(Task{graph, node, build_info, log_format});
+		   },
+		   graph,
+		   node);
+	});
 }
 
 size_t Maike::Db::TaskList::process(Sched::ThreadPool& workers,
diff --git a/core/db/task_list.hpp b/core/db/task_list.hpp
index 2776b50..5bc915c 100644
--- a/core/db/task_list.hpp
+++ b/core/db/task_list.hpp
@@ -13,8 +13,10 @@
 #include "core/sched/thread_pool.hpp"
 
 #include <atomic>
+#include <functional>
 #include <list>
 #include <memory>
+#include <vector>
 
 namespace Maike::Db
 {
@@ -28,7 +30,7 @@ namespace Maike::Db
 		explicit TaskList(DependencyGraph const& graph,
 		                  Build::Info const& build_info,
 		                  CompilationLog& compilation_log,
-		                  Target const& target);
+		                  std::vector<std::reference_wrapper<Target const>> const& targets);
 
 		size_t process(Sched::ThreadPool& workers,
 		               Invoker invoker,
-- 
2.43.0


From 5600b94cd48ba967b3c423cc653ccc5006fb879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:23 +0000
Subject: [PATCH 09/27] fix: source and target directories work however they
 are spelled

---
 core/bin/maike.cpp      | 12 ++++++++++--
 core/db/source_tree.cpp |  2 +-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 1bac001..3a3105a 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -20,6 +20,14 @@
 
 #include <set>
 
+// Source files and targets are identified by their normalised paths. Thus, the directories they are
+// compared to have to be spelled in the same way, no matter how they were given.
+Maike::fs::path normaliseDirectory(Maike::fs::path const& path)
+{
+	auto ret = path.lexically_normal();
+	return (!ret.has_filename() && ret.has_relative_path()) ? ret.parent_path() : ret;
+}
+
 Maike::Build::Info makeBuildInfo(Maike::CommandLine const& cmdline)
 {
 	Maike::Build::Info ret;
@@ -31,10 +39,10 @@ Maike::Build::Info makeBuildInfo(Maike::CommandLine const& cmdline)
 	{ ret.buildId(Maike::Build::Id{cmdline.option<Maike::CmdLineOption::BuildId>()}); }
 
 	if(cmdline.hasOption<Maike::CmdLineOption::SourceDir>())
-	{ ret.sourceDir(Maike::fs::path{cmdline.option<Maike::CmdLineOption::SourceDir>()}); }
+	{ ret.sourceDir(normaliseDirectory(cmdline.option<Maike::CmdLineOption::SourceDir>())); }
 
 	if(cmdline.hasOption<Maike::CmdLineOption::TargetDir>())
-	{ ret.targetDir(Maike::fs::path{cmdline.option<Maike::CmdLineOption::TargetDir>()}); }
+	{ ret.targetDir(normaliseDirectory(cmdline.option<Maike::CmdLineOption::TargetDir>())); }
 	else
 	{
 		if(ret.sourceDir().filename() != ".")
diff --git a/core/db/source_tree.cpp b/core/db/source_tree.cpp
index 1deb11d..11fa8e5 100644
--- a/core/db/source_tree.cpp
+++ b/core/db/source_tree.cpp
@@ -18,7 +18,7 @@ Maike::Db::Target const& Maike::Db::getTarget(SourceTree const& src_tree,
                                               fs::path const& target_name)
 {
 	auto const& targets = src_tree.targets();
-	auto i = targets.find(src_tree.targetDirectory() / target_name);
+	auto i = targets.find((src_tree.targetDirectory() / target_name).lexically_normal());
 	if(i == std::end(targets))
 	{
 		std::string msg{"Unkonwn target `"};
-- 
2.43.0


From 80450f3f6e795cc2327b4ac8590878f979c59157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:54 +0000
Subject: [PATCH 10/27] fix: a scan error always tells which file it comes from

---
 core/source_tree_loader/directory_scanner.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/source_tree_loader/directory_scanner.cpp b/core/source_tree_loader/directory_scanner.cpp
index daa9971..d399927 100644
--- a/core/source_tree_loader/directory_scanner.cpp
+++ b/core/source_tree_loader/directory_scanner.cpp
@@ -83,10 +83,13 @@ void Maike::SourceTreeLoader::DirectoryScanner::processPath(
 	}
 	catch(std::exception const& err)
 	{
-		char const* msg = err.what();
-		auto l = strlen(msg) + 1;
+		std::string msg{err.what()};
+		// Not all errors tell which file they come from
+		if(msg.find(src_path.string()) == std::string::npos)
+		{ msg = src_path.string() + ": error: " + msg; }
+		auto l = std::size(msg) + 1;
 		auto ptr = std::make_unique<char[]>(l);
-		memcpy(ptr.get(), msg, l);
+		memcpy(ptr.get(), msg.c_str(), l);
 
 		std::lock_guard lock{m_errlog_mtx};
 		m_errlog.push_front(std::move(ptr));
-- 
2.43.0


From 40fc8e53878c7802f7e2a527b3029f57909a2800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:54 +0000
Subject: [PATCH 11/27] fix: a logged command that runs a recipe in the current
 directory works in a shell

---
 core/exec/command.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/exec/command.cpp b/core/exec/command.cpp
index f482d5b..529375e 100644
--- a/core/exec/command.cpp
+++ b/core/exec/command.cpp
@@ -26,7 +26,8 @@ namespace
 
 std::string Maike::Exec::toString(Command const& cmd)
 {
-	auto cmdline = shell_escape(cmd.executable.string());
+	// An executable is looked up in the search path by the shell, unless its name contains a slash
+	auto cmdline = shell_escape(makeShellExecPath(cmd.executable).string());
 	std::for_each(std::begin(cmd.args), std::end(cmd.args), [&cmdline](auto const& item) {
 		cmdline += " ";
 		cmdline += shell_escape(item);
-- 
2.43.0


From 5cb0270f1ca09e6897747005ec65f6c4663324cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:54 +0000
Subject: [PATCH 12/27] fix: log the complete output of a recipe and start the
 next entry on a new line

---
 core/db/compilation_log.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/db/compilation_log.cpp b/core/db/compilation_log.cpp
index 8b31758..01f20ff 100644
--- a/core/db/compilation_log.cpp
+++ b/core/db/compilation_log.cpp
@@ -38,6 +38,8 @@ namespace
 			output += ch_in;
 			newline = (ch_in == '\n');
 		});
+		// The next entry has to start on a line of its own
+		if(std::size(data) != 0 && output.back() != '\n') { output += '\n'; }
 	}
 }
 
@@ -75,8 +77,9 @@ Maike::Db::CompilationLog& Maike::Db::CompilationLog::write(Task const& task,
 	append_log(stdout_buff, result.stdout());
 
 	std::lock_guard lock{m_output_mutex};
-	fputs(stdout_buff.c_str(), stdout);
-	fputs(stderr_buff.c_str(), stderr);
+	// NOTE: Not fputs, since the output of a recipe may contain null characters
+	fwrite(stdout_buff.data(), 1, std::size(stdout_buff), stdout);
+	fwrite(stderr_buff.data(), 1, std::size(stderr_buff), stderr);
 	return *this;
 }
 
-- 
2.43.0


From c606740d92bc146ee228e15ad4fd7bed1419641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 13/27] fix: refuse command line options that are only the
 beginning of an option name

---
 core/cmd_line_parser/command_line.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/cmd_line_parser/command_line.cpp b/core/cmd_line_parser/command_line.cpp
index 46a664e..92bdc2c 100644
--- a/core/cmd_line_parser/command_line.cpp
+++ b/core/cmd_line_parser/command_line.cpp
@@ -76,7 +76,9 @@ uint64_t Maike::CmdLineParser::detail::collect_options(char const* const* argv_b
 		                    str,
 		                    CompareOptItemsByName{static_cast<size_t>(splitpoint - str)});
 
-		if(x == optitems_end)
+		// NOTE: The comparison above only considers the characters before '='. Thus, it also accepts the
+		// beginning of an option name.
+		if(x == optitems_end || strlen(x->name) != static_cast<size_t>(splitpoint - str))
 		{ throw std::runtime_error{std::string{"Invalid command line option "} + str}; }
 
 		set_vals |= x->converter(tuple, splitpoint == str_end ? "" : splitpoint + 1);
-- 
2.43.0


From 9a013ccfbead9a9ec7125668fabe5fdefc158469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:10 +0000
Subject: [PATCH 14/27] fix: refuse thread counts followed by other characters
 and build ids of wrong length

---
 core/build/id.cpp           | 5 ++++-
 core/sched/thread_count.cpp | 9 +++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/build/id.cpp b/core/build/id.cpp
index 4970618..996c691 100644
--- a/core/build/id.cpp
+++ b/core/build/id.cpp
@@ -35,7 +35,10 @@ Maike::Build::Id::Id(char const* cstr): m_bytes{}
 	while(true)
 	{
 		auto ch_in = *cstr;
-		if(ch_in == '\0' || k == 64) { return; }
+		if(ch_in == '\0' && k == 64) { return; }
+
+		if(ch_in == '\0' || k == 64)
+		{ throw std::runtime_error{"Invalid BuildId: 64 hexadecimal digits are required"}; }
 
 		auto nibble = to_nibble(ch_in);
 
diff --git a/core/sched/thread_count.cpp b/core/sched/thread_count.cpp
index 1b10edd..2cfac7f 100644
--- a/core/sched/thread_count.cpp
+++ b/core/sched/thread_count.cpp
@@ -4,8 +4,10 @@
 
 #include "./thread_count.hpp"
 
+#include <cerrno>
 #include <cstring>
 #include <cstdlib>
+#include <limits>
 #include <stdexcept>
 
 std::string Maike::ThreadCount::toString() const
@@ -20,8 +22,11 @@ Maike::ThreadCount::ThreadCount(char const* str)
 	if(strcmp(str, "auto") == 0) { m_val = -1; }
 	else
 	{
-		m_val = atoi(str);
-		if(m_val < 1)
+		char* end;
+		errno = 0;
+		auto const val = strtol(str, &end, 10);
+		if(end == str || *end != '\0' || errno != 0 || val < 1 || val > std::numeric_limits<int>::max())
 		{ throw std::runtime_error{"ThreadCount must be an integer greater than zero, or auto"}; }
+		m_val = static_cast<int>(val);
 	}
 }
-- 
2.43.0


From 1cdda520fa46aeaa64cd68a58d759d011cba841a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:59 +0000
Subject: [PATCH 15/27] fix: write program information and query results to the
 file given with the option

---
 core/bin/maike.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 3a3105a..50ab952 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -68,17 +68,25 @@ Maike::Db::CompilationLog::LogLevel getLogLevel(Maike::CommandLine const& cmdlin
 	          Maike::Db::CompilationLog::LogLevel::SourceFileInfo;
 }
 
+void redirectStdout(Maike::fs::path const& path)
+{
+	if(path != "" && freopen(path.c_str(), "wb", stdout) == nullptr)
+	{ throw std::runtime_error{std::string{"Failed to open `"} + path.string() + "` for writing"}; }
+}
+
 void printTargets(Maike::Db::TargetList const& targets,
                   Maike::fs::path const& target_dir,
-                  Maike::fs::path const&)
+                  Maike::fs::path const& output_file)
 {
+	redirectStdout(output_file);
 	std::for_each(std::begin(targets), std::end(targets), [&target_dir](auto const& item) {
 		printf("%s\n", item.first.lexically_relative(target_dir).c_str());
 	});
 }
 
-void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::path const&)
+void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::path const& output_file)
 {
+	redirectStdout(output_file);
 	std::set<std::pair<Maike::fs::path, Maike::fs::path>> output;
 	visitNodes(
 	   [&output](auto const& item) {
@@ -103,6 +111,7 @@ void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::pa
 
 void printHelp(Maike::CommandLine const& cmdline)
 {
+	redirectStdout(cmdline.option<Maike::CmdLineOption::Help>());
 	printf(
 	   "\nBelow is a summary of all command line options. For information about how to type "
 	   "arguments, see *Parameter type explanations* below.\n");
@@ -146,8 +155,9 @@ void printHelp(Maike::CommandLine const& cmdline)
 	}
 }
 
-void printVersion(Maike::fs::path const&)
+void printVersion(Maike::fs::path const& output_file)
 {
+	redirectStdout(output_file);
 	printf(R"STR(# Maike %s (%s)
 
 Build start time: %s
@@ -164,8 +174,9 @@ Build host: %s
 	       Maike::Self::BuildHost);
 }
 
-void printAbout(Maike::fs::path const&)
+void printAbout(Maike::fs::path const& output_file)
 {
+	redirectStdout(output_file);
 	printf(R"STR(# Maike %s (%s)
 
 %s
@@ -255,8 +266,9 @@ void write(FILE* stream, void const* buffer, size_t n)
 {
 	fwrite(buffer, 1, n, stream);
 }
-void dumpConfig(Maike::Config const& cfg, Maike::fs::path const&)
+void dumpConfig(Maike::Config const& cfg, Maike::fs::path const& output_file)
 {
+	redirectStdout(output_file);
 	store(Maike::KeyValueStore::Compound{}.set("maikeconfig", cfg).handleReference(), stdout);
 }
 
@@ -374,7 +386,7 @@ int main(int argc, char** argv)
 		{
 			printTargets(src_tree.targets(),
 			             build_info.targetDir(),
-			             cmdline.option<Maike::CmdLineOption::PrintDepGraph>());
+			             cmdline.option<Maike::CmdLineOption::ListTargets>());
 			return 0;
 		}
 
-- 
2.43.0


From a2098c459cefeb92825af05e0a76206e22c01850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:22 +0000
Subject: [PATCH 16/27] fix: let a later configuration file change a boolean
 from true to false

Merging treats true and false as values of different types, so the whole file that
flips a boolean was refused with "Type mismatch".
---
 core/key_value_store/compound.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/core/key_value_store/compound.cpp b/core/key_value_store/compound.cpp
index 1f59a9f..f0ecdf8 100644
--- a/core/key_value_store/compound.cpp
+++ b/core/key_value_store/compound.cpp
@@ -7,12 +7,23 @@
 
 #include <algorithm>
 
+namespace
+{
+	// true and false are different values of the same type
+	bool sameType(Maike::KeyValueStore::Type a, Maike::KeyValueStore::Type b)
+	{
+		using Maike::KeyValueStore::Type;
+		auto const is_bool = [](Type val) { return val == Type::True || val == Type::False; };
+		return a == b || (is_bool(a) && is_bool(b));
+	}
+}
+
 Maike::KeyValueStore::Compound& Maike::KeyValueStore::operator|=(Compound& a, CompoundRefConst b)
 {
 	std::for_each(std::begin(b), std::end(b), [&a](auto const& item) {
 		if(auto item_in_a = a.getIfAny(item.first); item_in_a)
 		{
-			if(item_in_a->type() != item.second.type()) { throw std::runtime_error{"Type mismatch"}; }
+			if(!sameType(item_in_a->type(), item.second.type())) { throw std::runtime_error{"Type mismatch"}; }
 
 			switch(item_in_a->type())
 			{
-- 
2.43.0


From cb1ec9e9e9694552933ded748f2df19449978eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:45 +0000
Subject: [PATCH 17/27] fix: query tags from, and depend on, the recipe a
 source file is compiled with

A source file that declares a compiler without a recipe of its own is compiled with
the default recipe, but did not depend on it, so that it was not rebuilt when that
recipe changed, and with use_get_tags the source file itself was executed instead
of the recipe.
---
 core/db/compiler.cpp                              | 7 ++++---
 core/source_tree_loader/source_file_load_ctxt.cpp | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/db/compiler.cpp b/core/db/compiler.cpp
index fe3c618..1277f88 100644
--- a/core/db/compiler.cpp
+++ b/core/db/compiler.cpp
@@ -11,10 +11,11 @@
 
 Maike::Db::Compiler Maike::Db::operator|(Compiler const& a, Compiler const& b)
 {
-	if(auto b_origin = b.origin(); b_origin)
+	// The origin belongs to the recipe that will be used
+	if(b.recipe() != "" && b.origin())
 	{
-		return Compiler{fs::path{b.recipe() != "" ? b.recipe() : a.recipe()},
-		                b_origin,
+		return Compiler{fs::path{b.recipe()},
+		                b.origin(),
 		                KeyValueStore::Compound{a.config()} | b.config().reference(),
 		                b.useGetTags()};
 	}
diff --git a/core/source_tree_loader/source_file_load_ctxt.cpp b/core/source_tree_loader/source_file_load_ctxt.cpp
index e0006e6..a93cec2 100644
--- a/core/source_tree_loader/source_file_load_ctxt.cpp
+++ b/core/source_tree_loader/source_file_load_ctxt.cpp
@@ -223,7 +223,7 @@ Maike::SourceTreeLoader::loadSourceFile(SourceFileLoadContext const& load_ctxt,
 			std::copy(std::begin(ctu_deps), std::end(ctu_deps), std::back_inserter(child_target_use_deps));
 		}
 		if(compiler.recipe() != "") { builtin_deps.push_back(makeDependency(compiler)); }
-	}(load_ctxt, compiler ? (*compiler) : loader.compiler(), src_path);
+	}(load_ctxt, compiler ? (loader.compiler() | *compiler) : loader.compiler(), src_path);
 
 	auto const rebuild_policy = [](auto const& tags) {
 		if(auto rebuild_policy = tags.template getIf<Db::RebuildPolicy>("rebuild"); rebuild_policy)
-- 
2.43.0


From 0760c7ccf4a6e9ea1d078f4f9b79941b7cf7c9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:25 +0000
Subject: [PATCH 18/27] fix: find every include directive of a C++ source file,
 and only those

A directive without argument swallowed the line after it, so an include following
#else or #endif was missed; the string of any other directive (#error "...") was
taken for an include; the text of an unterminated include stuck to the next one.
---
 .../cxx/source_file_loader.cpp                        | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 5a8dfee..60ee958 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -70,6 +70,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 					case '#':
 						state = State::PrePreprocessorDirective;
 						preproc_directive.clear();
+						include_path.clear();
 						break;
 
 					default:
@@ -158,7 +159,8 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '\n') { state = State::Newline; }
+				else if(!(ch_in >= '\0' && ch_in <= ' '))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
@@ -168,6 +170,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::PreprocessorDirective:
 				switch(ch_in)
 				{
+					case '\n': state = State::Newline; break;
 					case '<':
 						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
 						break;
@@ -175,7 +178,11 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
 						break;
 					default:
-						if(ch_in >= '\0' && ch_in <= ' ') { state = State::PreprocessorDirectivePreArg; }
+						if(ch_in >= '\0' && ch_in <= ' ')
+						{
+							state = preproc_directive == "include" ? State::PreprocessorDirectivePreArg :
+							                                         State::SkipLine;
+						}
 						else
 						{
 							preproc_directive += ch_in;
-- 
2.43.0


From 6c108d81bbd3d9e293a8aecf62cc6f56e2bb0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:35 +0000
Subject: [PATCH 19/27] fix: include scanning knows where comments, strings and
 raw strings begin and end

'**/' did not close a comment, '// a/*b' and "/*" opened one, a directive after a comment
on the same line was missed, and a raw string containing ')' before its end never ended.
---
 .../cxx/source_file_loader.cpp                | 162 ++++++++++++------
 1 file changed, 106 insertions(+), 56 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 60ee958..3c60845 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -7,6 +7,9 @@
 #include "core/io/input_buffer.hpp"
 #include "core/io/output_buffer.hpp"
 
+#include <cctype>
+#include <utility>
+
 namespace
 {
 	auto get_origin(std::vector<std::regex> const& gen_includes , std::filesystem::path const& include_path)
@@ -19,6 +22,16 @@ namespace
 		}
 		return Maike::Db::SourceFileOrigin::Project;
 	}
+
+	bool isWordChar(int ch)
+	{
+		return std::isalnum(ch) || ch == '_';
+	}
+
+	bool isRawStringPrefix(std::string const& word)
+	{
+		return word == "R" || word == "LR" || word == "uR" || word == "UR" || word == "u8R";
+	}
 }
 
 std::vector<Maike::Db::Dependency>
@@ -30,10 +43,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	{
 		Newline,
 		CommentFirst,
+		LineComment,
 		SkipLine,
+		Literal,
+		LiteralEscape,
 		CommentBlock,
 		CommentBlockPreEnd,
-		RawStringBegin,
 		RawStringTag,
 		RawString,
 		RawStringPreEnd,
@@ -48,6 +63,43 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 	std::string raw_string_end_mark;
 	std::string preproc_directive;
 	std::string include_path;
+	std::string word;
+	auto comment_end_state = State::SkipLine;
+	int quote = '"';
+
+	auto const scanCode = [&](int ch_in) {
+		if(isWordChar(ch_in))
+		{
+			word += static_cast<char>(ch_in);
+			return State::SkipLine;
+		}
+
+		auto const prefix = std::exchange(word, std::string{});
+		switch(ch_in)
+		{
+			case '\n': return State::Newline;
+			case '/': comment_end_state = State::SkipLine; return State::CommentFirst;
+			case '"':
+				if(isRawStringPrefix(prefix))
+				{
+					raw_string_tag.clear();
+					raw_string_end_mark.clear();
+					return State::RawStringTag;
+				}
+				quote = ch_in;
+				return State::Literal;
+			case '\'':
+				if(!prefix.empty() && std::isdigit(static_cast<unsigned char>(prefix[0])))
+				{
+					// Digit separator
+					word = prefix;
+					return State::SkipLine;
+				}
+				quote = ch_in;
+				return State::Literal;
+			default: return State::SkipLine;
+		}
+	};
 
 	while(true)
 	{
@@ -59,12 +111,9 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::Newline:
 				switch(ch_in)
 				{
-					case '/': state = State::CommentFirst; break;
-
-					case 'R':
-						state = State::RawStringBegin;
-						raw_string_tag.clear();
-						raw_string_end_mark.clear();
+					case '/':
+						comment_end_state = State::Newline;
+						state = State::CommentFirst;
 						break;
 
 					case '#':
@@ -74,7 +123,7 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						break;
 
 					default:
-						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
+						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = scanCode(ch_in); }
 						break;
 				}
 				break;
@@ -83,26 +132,31 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
-					case '\n': state = State::Newline; break;
+					case '/': state = State::LineComment; break;
 
-					default: state = State::SkipLine;
+					default: state = scanCode(ch_in);
 				}
 				break;
 
-			case State::SkipLine:
+			case State::LineComment:
+				if(ch_in == '\n') { state = State::Newline; }
+				break;
+
+			case State::SkipLine: state = scanCode(ch_in); break;
+
+			case State::Literal:
 				switch(ch_in)
 				{
 					case '\n': state = State::Newline; break;
-					case 'R':
-						raw_string_tag.clear();
-						raw_string_end_mark.clear();
-						state = State::RawStringBegin;
+					case '\\': state = State::LiteralEscape; break;
+					default:
+						if(ch_in == quote) { state = State::SkipLine; }
 						break;
-					case '/': state = State::CommentFirst; break;
-					default: break;
 				}
 				break;
 
+			case State::LiteralEscape: state = State::Literal; break;
+
 			case State::CommentBlock:
 				switch(ch_in)
 				{
@@ -113,21 +167,12 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 			case State::CommentBlockPreEnd:
 				switch(ch_in)
 				{
-					case '/': state = State::SkipLine; break;
-					case '\n': state = State::CommentBlock; break;
+					case '/': state = comment_end_state; break;
+					case '*': break;
 					default: state = State::CommentBlock; break;
 				}
 				break;
 
-			case State::RawStringBegin:
-				switch(ch_in)
-				{
-					case '"': state = State::RawStringTag; break;
-					case '\n': state = State::Newline; break;
-					default: state = State::SkipLine;
-				}
-				break;
-
 			case State::RawStringTag:
 				switch(ch_in)
 				{
@@ -152,44 +197,47 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 						raw_string_end_mark.clear();
 						break;
 
-					case '\n': state = State::RawString; break;
+					case ')': raw_string_end_mark.clear(); break;
+
+					case '\n':
+						state = State::RawString;
+						raw_string_end_mark.clear();
+						break;
 
 					default: raw_string_end_mark += ch_in;
 				}
 				break;
 
 			case State::PrePreprocessorDirective:
-				if(ch_in == '\n') { state = State::Newline; }
-				else if(!(ch_in >= '\0' && ch_in <= ' '))
+				if(ch_in == '/')
+				{
+					comment_end_state = state;
+					state = State::CommentFirst;
+				}
+				else if(isWordChar(ch_in))
 				{
 					preproc_directive += ch_in;
 					state = State::PreprocessorDirective;
 				}
+				else if(ch_in == '\n' || !(ch_in >= '\0' && ch_in <= ' '))
+				{
+					state = scanCode(ch_in);
+				}
 				break;
 
 			case State::PreprocessorDirective:
-				switch(ch_in)
+				if(isWordChar(ch_in))
 				{
-					case '\n': state = State::Newline; break;
-					case '<':
-						state = preproc_directive == "include" ? State::IncludeSystem : State::SkipLine;
-						break;
-					case '"':
-						state = preproc_directive == "include" ? State::IncludeProject : State::SkipLine;
-						break;
-					default:
-						if(ch_in >= '\0' && ch_in <= ' ')
-						{
-							state = preproc_directive == "include" ? State::PreprocessorDirectivePreArg :
-							                                         State::SkipLine;
-						}
-						else
-						{
-							preproc_directive += ch_in;
-						}
-						break;
+					preproc_directive += ch_in;
+					break;
 				}
-				break;
+				if(preproc_directive != "include")
+				{
+					state = scanCode(ch_in);
+					break;
+				}
+				state = State::PreprocessorDirectivePreArg;
+				[[fallthrough]];
 
 			case State::PreprocessorDirectivePreArg:
 				switch(ch_in)
@@ -200,12 +248,14 @@ Cxx::SourceFileLoader::getDependencies(Maike::Io::Reader input) const
 
 					case '<': state = State::IncludeSystem; break;
 
+					case '/':
+						comment_end_state = state;
+						state = State::CommentFirst;
+						break;
+
 					default:
-						if(!(ch_in >= '\0' && ch_in <= ' '))
-						{
-							state = State::SkipLine;
-							break;
-						}
+						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = scanCode(ch_in); }
+						break;
 				}
 				break;
 
-- 
2.43.0


From 8e12dcceca830856a4f9336ca90e46eabff9a929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:36 +0000
Subject: [PATCH 20/27] fix: tag extraction knows where comments, strings and
 raw strings begin and end

---
 .../cxx/source_file_loader.cpp                | 106 +++++++++++-------
 1 file changed, 68 insertions(+), 38 deletions(-)

diff --git a/core/source_file_info_loaders/cxx/source_file_loader.cpp b/core/source_file_info_loaders/cxx/source_file_loader.cpp
index 3c60845..2601a9f 100644
--- a/core/source_file_info_loaders/cxx/source_file_loader.cpp
+++ b/core/source_file_info_loaders/cxx/source_file_loader.cpp
@@ -312,11 +312,13 @@ void Cxx::SourceFileLoader::filterInput(
 		CommentFirst,
 		TagSymbol,
 		Tag,
+		LineComment,
 		SkipLine,
+		Literal,
+		LiteralEscape,
 		CommentBlock,
 		CommentBlockPreEnd,
 		CommentFirstSkipLine,
-		RawStringBegin,
 		RawStringTag,
 		RawString,
 		RawStringPreEnd
@@ -324,6 +326,43 @@ void Cxx::SourceFileLoader::filterInput(
 	auto state = State::Newline;
 	std::string raw_string_tag;
 	std::string raw_string_end_mark;
+	std::string word;
+	int quote = '"';
+
+	auto const scanCode = [&](int ch_in) {
+		if(isWordChar(ch_in))
+		{
+			word += static_cast<char>(ch_in);
+			return State::SkipLine;
+		}
+
+		auto const prefix = std::exchange(word, std::string{});
+		switch(ch_in)
+		{
+			case '\n': tags.putchar('\n'); return State::Newline;
+			case '/': return State::CommentFirstSkipLine;
+			case '"':
+				if(isRawStringPrefix(prefix))
+				{
+					raw_string_tag.clear();
+					raw_string_end_mark.clear();
+					return State::RawStringTag;
+				}
+				quote = ch_in;
+				return State::Literal;
+			case '\'':
+				if(!prefix.empty() && std::isdigit(static_cast<unsigned char>(prefix[0])))
+				{
+					// Digit separator
+					word = prefix;
+					return State::SkipLine;
+				}
+				quote = ch_in;
+				return State::Literal;
+			default: return State::SkipLine;
+		}
+	};
+
 	while(true)
 	{
 		auto ch_in = input_buff.getchar();
@@ -342,14 +381,8 @@ void Cxx::SourceFileLoader::filterInput(
 						tags.putchar(' ');
 						break;
 
-					case 'R':
-						state = State::RawStringBegin;
-						raw_string_tag.clear();
-						raw_string_end_mark.clear();
-						break;
-
 					default:
-						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = State::SkipLine; }
+						if(!(ch_in >= '\0' && ch_in <= ' ')) { state = scanCode(ch_in); }
 						else
 						{
 							tags.putchar(ch_in);
@@ -366,12 +399,8 @@ void Cxx::SourceFileLoader::filterInput(
 						tags.putchar(' ');
 						break;
 					case '*': state = State::CommentBlock; break;
-					case '\n':
-						state = State::Newline;
-						tags.putchar('\n');
-						break;
 
-					default: state = State::SkipLine;
+					default: state = scanCode(ch_in);
 				}
 				break;
 
@@ -386,7 +415,7 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					default: state = State::SkipLine; break;
+					default: state = State::LineComment; break;
 				}
 				break;
 
@@ -395,23 +424,35 @@ void Cxx::SourceFileLoader::filterInput(
 				tags.putchar(static_cast<std::byte>(ch_in));
 				break;
 
-			case State::SkipLine:
+			case State::LineComment:
+				if(ch_in == '\n')
+				{
+					state = State::Newline;
+					tags.putchar('\n');
+				}
+				break;
+
+			case State::SkipLine: state = scanCode(ch_in); break;
+
+			case State::Literal:
 				switch(ch_in)
 				{
 					case '\n':
 						state = State::Newline;
 						tags.putchar('\n');
 						break;
-					case 'R':
-						raw_string_tag.clear();
-						raw_string_end_mark.clear();
-						state = State::RawStringBegin;
+					case '\\': state = State::LiteralEscape; break;
+					default:
+						if(ch_in == quote) { state = State::SkipLine; }
 						break;
-					case '/': state = State::CommentFirstSkipLine; break;
-					default: break;
 				}
 				break;
 
+			case State::LiteralEscape:
+				if(ch_in == '\n') { tags.putchar('\n'); }
+				state = State::Literal;
+				break;
+
 			case State::CommentBlock:
 				switch(ch_in)
 				{
@@ -428,6 +469,7 @@ void Cxx::SourceFileLoader::filterInput(
 						state = State::CommentBlock;
 						tags.putchar('\n');
 						break;
+					case '*': break;
 					default: state = State::CommentBlock; break;
 				}
 				break;
@@ -436,23 +478,8 @@ void Cxx::SourceFileLoader::filterInput(
 				switch(ch_in)
 				{
 					case '*': state = State::CommentBlock; break;
-					case '\n':
-						state = State::Newline;
-						tags.putchar('\n');
-						break;
-					default: state = State::SkipLine;
-				}
-				break;
-
-			case State::RawStringBegin:
-				switch(ch_in)
-				{
-					case '"': state = State::RawStringTag; break;
-					case '\n':
-						state = State::Newline;
-						tags.putchar('\n');
-						break;
-					default: state = State::SkipLine;
+					case '/': state = State::LineComment; break;
+					default: state = scanCode(ch_in);
 				}
 				break;
 
@@ -484,8 +511,11 @@ void Cxx::SourceFileLoader::filterInput(
 						raw_string_end_mark.clear();
 						break;
 
+					case ')': raw_string_end_mark.clear(); break;
+
 					case '\n':
 						state = State::RawString;
+						raw_string_end_mark.clear();
 						tags.putchar('\n');
 						break;
 
-- 
2.43.0


From 2c76e1409463da4d4489d453604cd435c271be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 21/27] fix: generic.py fails when its command fails and puts
 targets beside their sources

The exit status of the command was dropped, so that a failed command counted as a
successful task. The name of a target contained the directory of the source file twice.
---
 recipes/generic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recipes/generic.py b/recipes/generic.py
index c654226..89405a5 100755
--- a/recipes/generic.py
+++ b/recipes/generic.py
@@ -2,6 +2,7 @@
 
 import sys
 import json
+import os
 import subprocess
 from string import Template
 
@@ -12,7 +13,7 @@ def get_tags(args, scriptname):
 
 	ret['target'] = dict()
 	compiler_cfg = args['compiler_cfg']
-	ret['target']['name']=args['source_file'] + '.' +  compiler_cfg['target_filename_ext']
+	ret['target']['name']=os.path.basename(args['source_file']) + '.' +  compiler_cfg['target_filename_ext']
 
 	command = compiler_cfg['compilation_cmd']
 	ret['dependencies'] = [{'ref': command['executable'], 'origin': command['exec_origin']}]
@@ -42,7 +43,7 @@ if __name__ == '__main__':
 		if sys.argv[1] == 'configure':
 			exit(0)
 		if sys.argv[1] == 'compile':
-			compile(args);
+			exit(compile(args))
 	except Exception as e:
 		print(e, file=sys.stderr)
 		exit(-1)
\ No newline at end of file
-- 
2.43.0


From f992f240814d9511331f575ff2d656fd785c9fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 22/27] fix: md2htmlpart.py fails when pandoc fails

---
 recipes/md2htmlpart.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/recipes/md2htmlpart.py b/recipes/md2htmlpart.py
index ca4f51a..e474748 100755
--- a/recipes/md2htmlpart.py
+++ b/recipes/md2htmlpart.py
@@ -16,6 +16,9 @@ def find_elements(node, element, result):
 
 def convert(src_file, target):
 	pandoc_res = subprocess.run(['pandoc', '-f', 'markdown', '-t', 'html', '--section-divs', src_file], text=True, stdout=subprocess.PIPE)
+	if pandoc_res.returncode != 0:
+		print('pandoc failed: %d'%pandoc_res.returncode, file=sys.stderr)
+		return pandoc_res.returncode
 
 	doc = '<content>' + pandoc_res.stdout + '</content>'
 
-- 
2.43.0


From d9c0adcd3f4169b1a917902aff90878139aebc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 23/27] fix: cxx_compiler.py accepts a configuration that only
 limits the newest language revision

---
 recipes/cxx_compiler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 0d3f384..30bc427 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -147,6 +147,7 @@ def select_cpp_rev(compiler, rev):
 			return ''
 	else:
 		if 'max' in rev:
+			max_num = get_numeric_rev(rev['max'])
 			default_rev = get_cpp_revision_tag(compiler)
 			if default_rev > max_num:
 				return rev['max']
-- 
2.43.0


From 3db5be86611390505d8b43641c71f5db1974ae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 24/27] fix: cxx_compiler.py finds generated headers when the
 target directory is absolute

---
 recipes/cxx_compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 30bc427..5941962 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -24,7 +24,7 @@ def format_iquote(src_dir, target_dir, dirs):
 		else:
 			ret.append('-iquote%s/%s'%(src_dir, item))
 
-		ret.append('-iquote%s/%s/%s'%(os.getcwd(), target_dir, item))
+		ret.append('-iquote%s'%os.path.join(os.getcwd(), target_dir, item))
 	return ret
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
-- 
2.43.0


From fccfbb2dc43baed25380a6a96435e2cdfabb1aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 25/27] fix: cxx_compiler.py passes all configured flags to the
 compiler

A flag given twice, such as '-isystem a -isystem b', was passed only once.
---
 recipes/cxx_compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/recipes/cxx_compiler.py b/recipes/cxx_compiler.py
index 5941962..e44507d 100755
--- a/recipes/cxx_compiler.py
+++ b/recipes/cxx_compiler.py
@@ -29,7 +29,6 @@ def format_iquote(src_dir, target_dir, dirs):
 
 def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependencies):
 	tmp = []
-	tmp.extend(compiler_flags['cflags'])
 	iquote = []
 	if src_file_dir != '':
 		iquote.append(os.path.relpath(src_file_dir, src_dir))
@@ -41,7 +40,7 @@ def collect_cflags(src_dir, target_dir, src_file_dir, compiler_flags, dependenci
 		elif 'rel' in item and item['rel'] == 'include':
 			tmp.append('-include%s'%item['ref'])
 
-	return list(dict.fromkeys(tmp))
+	return compiler_flags['cflags'] + list(dict.fromkeys(tmp))
 
 def get_actions(compiler_cfg):
 	ret = set()
-- 
2.43.0


From 5cdcdfcd81eec60f600dd9b3b10913d7bc421709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:03 +0000
Subject: [PATCH 26/27] fix: make_directory.py fails when a file is in the way

---
 recipes/make_directory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recipes/make_directory.py b/recipes/make_directory.py
index 4001b6e..8ecffb7 100755
--- a/recipes/make_directory.py
+++ b/recipes/make_directory.py
@@ -14,7 +14,8 @@ def mkdir(path):
 		else:
 			os.mkdir(path)
 	except FileExistsError:
-		pass
+		if not os.path.isdir(path):
+			raise
 
 def compile(dict):
 	for target in dict["targets"]:
-- 
2.43.0


From 02590efc42027d966acd1b2f93e4374e50f13159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:37 +0000
Subject: [PATCH 27/27] fix: a double quote in a file name does not break the
 printed dependency graph

---
 core/bin/maike.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/core/bin/maike.cpp b/core/bin/maike.cpp
index 50ab952..f2c485e 100644
--- a/core/bin/maike.cpp
+++ b/core/bin/maike.cpp
@@ -84,6 +84,16 @@ void printTargets(Maike::Db::TargetList const& targets,
 	});
 }
 
+std::string dotEscape(std::string const& str)
+{
+	std::string ret;
+	std::for_each(std::begin(str), std::end(str), [&ret](auto ch) {
+		if(ch == '"') { ret += '\\'; }
+		ret += ch;
+	});
+	return ret;
+}
+
 void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::path const& output_file)
 {
 	redirectStdout(output_file);
@@ -104,7 +114,9 @@ void printDepGraph(Maike::Db::DependencyGraph const& source_files, Maike::fs::pa
 	   source_files);
 	puts("digraph \"G\" {\nrankdir=LR\n");
 	std::for_each(std::begin(output), std::end(output), [](auto const& item) {
-		printf("\"%s\" -> \"%s\"\n", item.first.c_str(), item.second.c_str());
+		printf("\"%s\" -> \"%s\"\n",
+		       dotEscape(item.first.string()).c_str(),
+		       dotEscape(item.second.string()).c_str());
 	});
 	puts("}");
 }
-- 
2.43.0

