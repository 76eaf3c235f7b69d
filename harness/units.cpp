// The building blocks of maike under the controlled scheduler: running child processes (C15), the worker pool (C16) and
// the in-memory pipe (C17).  Only the interface exercised by the repository's own unit tests is used.
#include "harness/common.h"
#include "core/exec/execve.hpp"
#include "core/sched/thread_pool.hpp"
#include "core/sched/signaling_counter.hpp"
#include "core/io/fifo.hpp"
#include "core/io/reader.hpp"
#include "core/io/writer.hpp"
#include "core/io/input_buffer.hpp"
#include "core/io/output_buffer.hpp"
#include <thread>
#include <atomic>

static void need(bool ok, char const* tag, std::string const& msg) { if(!ok) mc::fail(tag, msg); }
static void add(Scens& v, std::string name, int bound, std::function<void()> body, mc::Options o = {})
{
	Scenario s;
	s.name = name;
	s.bound = bound;
	s.opt = o;
	s.opt.race_detect = true;
	if(active_prop != "C17") s.opt.free_np = false;      // every deviation from the default schedule counts
	s.timeout_s = 60;
	s.body = [body]() { mc::setExplore(true); body(); mc::finish(1); };
	v.push_back(s);
}

// ------------------------------------------------------------------ C15
// a child program: steps, then the way it ends
struct Step { char op; size_t n; };      // o/e write n bytes to stdout/stderr, i read all of stdin, r read some, x/y/z close stdin/stdout/stderr
struct Child { std::vector<Step> steps; int code{0}, sig{0}, noexec{0}; size_t in{0}; };
static std::string pattern(char c, size_t n, size_t from = 0) { std::string s; s.reserve(n); for(size_t k = 0; k < n; ++k) s += char((from + k) * 31 % 251 + (c == 'o' ? 0 : c == 'e' ? 1 : 2)); return s; }
static std::string text(Child const& c)
{
	std::string s;
	for(auto& x: c.steps) s += std::string(1, x.op) + (x.n ? std::to_string(x.n) : "") + ".";
	if(c.noexec) s += "noexec" + std::to_string(c.noexec);
	else s += c.sig ? "sig" + std::to_string(c.sig) : "exit" + std::to_string(c.code);
	return s + (c.in ? "<" + std::to_string(c.in) : "");
}
struct Got { std::string in; bool leaked{false}; bool args{true}; };
static std::map<std::string, Child> programs;
static std::map<std::string, Got> seen;
static Strs const kArgs{"", "a b", "q\"'\\$`\n\t*", std::string(9000, 'z'), "--x=1", "\xc3\xa5\xff"};

static mc::ExitBy playChild(mc::VProc& p)
{
	auto name = fs::path(p.path).filename().string();
	auto& c = programs[name];
	auto& g = seen[name];
	Strs want = kArgs;
	if(p.args != want || p.argv.empty() || p.argv[0] != p.path) g.args = false;
	if(!p.openFds().empty()) g.leaked = true;
	size_t no = 0, ne = 0;
	for(auto& s: c.steps)
	{
		if(s.op == 'o') { p.writeAll(1, pattern('o', s.n, no)); no += s.n; }
		if(s.op == 'e') { p.writeAll(2, pattern('e', s.n, ne)); ne += s.n; }
		if(s.op == 'i') { char b[1000]; long n; while((n = p.read(0, b, sizeof b)) > 0) g.in.append(b, n); }
		if(s.op == 'r') { char b[10]; long n = p.read(0, b, sizeof b); if(n > 0) g.in.append(b, n); }
		if(s.op == 'x') p.close(0);
		if(s.op == 'y') p.close(1);
		if(s.op == 'z') p.close(2);
	}
	return {c.code, c.sig};
}
static void setProcesses()
{
	mc::ProcEnv env;
	env.program = playChild;
	env.exec_check = [](std::string const& path, std::vector<std::string> const&) { return programs[fs::path(path).filename().string()].noexec; };
	mc::setProcEnv(std::move(env));
}
struct Redir
{
	std::string in, out, err;
	size_t pos{0};
	size_t operator()(std::byte* b, size_t n, Maike::Io::Redirector::StdIn) { auto k = std::min(n, in.size() - pos); memcpy(b, in.data() + pos, k); pos += k; return k; }
	void operator()(std::byte const* b, size_t n, Maike::Io::Redirector::StdOut) { out.append((char const*)b, n); }
	void operator()(std::byte const* b, size_t n, Maike::Io::Redirector::StdErr) { err.append((char const*)b, n); }
};
static void runChild(std::string const& name, bool capture)
{
	auto const& c = programs[name];
	std::string wo, we;
	bool y = false, z = false, reads = false, some = false, x = false;
	for(auto& s: c.steps)
	{
		if(s.op == 'o' && !y) wo += pattern('o', s.n, wo.size());
		if(s.op == 'e' && !z) we += pattern('e', s.n, we.size());
		if(s.op == 'y') y = true;
		if(s.op == 'z') z = true;
		if(s.op == 'x') x = true;
		if(s.op == 'i' && !x) reads = true;
		if(s.op == 'r') some = true;
	}
	(void)some;
	Maike::Exec::ExitStatus st = Maike::Exec::ExitStatus::success();
	std::string out, err, what, in = pattern('i', capture ? 0 : c.in);
	bool thrown = false;
	try
	{
		if(capture)
		{
			auto r = Maike::Exec::execve(Maike::fs::path{"/bin/" + name}, kArgs);
			st = r.exitStatus();
			out.assign((char const*)r.stdout().data(), r.stdout().size());
			err.assign((char const*)r.stderr().data(), r.stderr().size());
			need(Maike::Exec::failed(r) == (c.sig != 0 || c.code != 0), "failed", text(c) + ": wrong verdict about success");
		}
		else
		{
			Redir rd;
			rd.in = in;
			st = Maike::Exec::execve(Maike::fs::path{"/bin/" + name}, kArgs, rd);
			out = rd.out;
			err = rd.err;
		}
	}
	catch(std::exception const& e) { thrown = true; what = e.what(); }
	auto t = text(c) + (capture ? " (captured)" : "");
	if(c.noexec)
	{
		need(thrown, "launch", t + ": a program that cannot be launched was not reported");
		need(what.find(std::to_string(c.noexec)) != std::string::npos && what.find(name) != std::string::npos, "launch", t + ": the report does not carry the reason: " + what);
		return;
	}
	need(!thrown, "thrown", t + ": an error was reported: " + what);
	if(c.sig) need(!st.returnedFromMain() && st.signo() == c.sig, "status", t + ": the signal was not reported");
	else need(st.returnedFromMain() && st.returnCode() == c.code, "status", t + ": the exit status is wrong");
	need(out == wo, "stdout", t + ": standard output: " + std::to_string(out.size()) + " bytes instead of " + std::to_string(wo.size()) + " or other bytes");
	need(err == we, "stderr", t + ": standard error: " + std::to_string(err.size()) + " bytes instead of " + std::to_string(we.size()) + " or other bytes");
	auto& g = seen[name];
	need(g.args, "arguments", t + ": the arguments were changed");
	need(!g.leaked, "leak", t + ": the child inherited a descriptor of maike");
	if(reads) need(g.in == in, "stdin", t + ": the child read " + std::to_string(g.in.size()) + " bytes instead of " + std::to_string(in.size()));
}
static void clean()
{
	need(mc::liveProcesses() == 0 && mc::zombies() == 0, "zombie", "a process was left behind");
	need(mc::openVirtualFds() == 0, "descriptors", std::to_string(mc::openVirtualFds()) + " descriptors were left open");
}
static void addRun(Scens& v, std::string name, int bound, std::vector<Child> cs, size_t cap, bool capture, mc::ProcEnv* = nullptr)
{
	mc::Options o;
	o.pipe_capacity = cap;
	for(auto& c: cs) name += " " + text(c);
	name += capture ? " c" : " r";
	name += std::to_string(cap);
	add(v, name, bound, [cs, capture]() {
		programs.clear();
		seen.clear();
		for(size_t k = 0; k < cs.size(); ++k) { programs["p" + std::to_string(k)] = cs[k]; seen["p" + std::to_string(k)]; }
		setProcesses();
		if(cs.size() == 1) runChild("p0", capture);
		else
		{
			std::vector<std::thread> t;
			for(size_t k = 0; k < cs.size(); ++k) t.emplace_back([k, capture]() { runChild("p" + std::to_string(k), capture); });
			for(auto& x: t) x.join();
		}
		clean();
	}, o);
}
static void c15(Scens& v)
{
	std::vector<Step> ops{{'o', 1}, {'o', 4096}, {'o', 4097}, {'e', 5}, {'e', 9000}, {'i', 0}, {'x', 0}, {'y', 0}, {'z', 0}, {'r', 0}};
	auto end = [](Child c, int k) { if(k == 1) c.code = 1; if(k == 2) c.code = 255; if(k == 3) c.sig = 9; if(k == 4) c.sig = 15; return c; };
	// every program of up to three steps; pipes smaller and larger than what is written
	size_t n = ops.size();
	int len = 3, k = 0;
	for(int l = 0; l <= len; ++l)
		for(size_t i = 0; i < ipow(n, l); ++i)
		{
			Child c;
			size_t q = i;
			for(int s = 0; s < l; ++s, q /= n) c.steps.push_back(ops[q % n]);
			c.in = (i % 3) * 4096 + (i % 2);
			addRun(v, "script", thorough() ? (l <= 1 ? 4 : l == 2 ? 3 : 2) : l <= 1 ? 2 : l == 2 ? 1 : 0, {end(c, k++ % 5)}, i % 2 ? 4096 : 65536, false);
			if(l <= 2) addRun(v, "script", thorough() ? 3 : l <= 1 ? 2 : 0, {end(c, k++ % 5)}, 4096, true);
		}
	// sizes around buffers and pipe capacities, both streams, in and out
	for(size_t a: {0, 1, 4095, 4096, 4097, 65535, 65536, 65537, 200000})
		for(size_t b: {0, 1, 4096, 65537})
			for(size_t in: {0, 1, 4095, 4096, 4097, 65536, 70000})
			{
				Child c;
				c.in = in;
				c.steps = {{'o', a}, {'e', b}, {'i', 0}};
				addRun(v, "size", thorough() ? 2 : 0, {c}, 65536, false);
				c.steps = {{'i', 0}, {'e', b}, {'o', a}};
				addRun(v, "size", 0, {c}, 65536, in == 0);
				c.steps = {{'e', b}, {'x', 0}, {'o', a}};
				addRun(v, "size", 0, {c}, 4096, false);
			}
	// every exit code and signal
	for(int x = 0; x < 256; ++x) { Child c; c.code = x; c.steps = {{'o', 3}}; addRun(v, "exit", 0, {c}, 65536, x % 2); }
	for(int x = 1; x < 32; ++x) { Child c; c.sig = x; c.steps = {{'e', 3}}; addRun(v, "signal", 0, {c}, 65536, x % 2); }
	for(int x: {1, 2, 7, 8, 11, 12, 13, 20, 21, 22, 26, 36, 40}) for(bool cap: {false, true}) { Child c; c.noexec = x; addRun(v, "launch", 1, {c}, 65536, cap); }
	// concurrent runs
	std::vector<Child> some;
	{
		Child c;
		some.push_back(c);
		c.steps = {{'o', 10}, {'e', 3}};
		some.push_back(c);
		c.steps = {{'i', 0}, {'o', 4097}};
		c.in = 5;
		c.code = 3;
		some.push_back(c);
		c = {};
		c.noexec = 13;
		some.push_back(c);
		c = {};
		c.steps = {{'x', 0}, {'y', 0}, {'e', 2}};
		c.sig = 9;
		some.push_back(c);
	}
	for(size_t a = 0; a < some.size(); ++a) for(size_t b = a; b < some.size(); ++b) addRun(v, "two", thorough() ? 3 : 2, {some[a], some[b]}, 4096, (a + b) % 2);
	for(auto& c: some) addRun(v, "three", thorough() ? 2 : 1, {c, some[1], some[2]}, 4096, false);
	// the system refuses a pipe or a process
	for(int which = 0; which < 2; ++which)
		for(int nth = 0; nth < (which ? 2 : 9); ++nth)
			add(v, std::string(which ? "fork" : "pipe") + "fault" + std::to_string(nth), 1, [which, nth]() {
				programs.clear();
				seen.clear();
				mc::ProcEnv env;
				env.program = playChild;
				env.exec_check = [](std::string const&, std::vector<std::string> const&) { return 0; };
				auto cnt = std::make_shared<int>(0);
				(which ? env.fork_fault : env.pipe_fault) = [cnt, nth](int) { return (*cnt)++ == nth ? EAGAIN : 0; };
				mc::setProcEnv(std::move(env));
				int thrown = 0;
				for(int k = 0; k < 2; ++k)
				{
					auto nm = "p" + std::to_string(k);
					programs[nm].steps = {{'o', 7}};
					seen[nm];
					try { auto r = Maike::Exec::execve(Maike::fs::path{"/bin/" + nm}, kArgs); need(r.stdout().size() == 7 && r.exitStatus().returnedFromMain() && r.exitStatus().returnCode() == 0, "stdout", "a run next to a failed one went wrong"); }
					catch(std::exception const&) { ++thrown; }
				}
				need(thrown == (*cnt > nth ? 1 : 0), "fault", "a refused system call was not reported exactly once");
				clean();
			});
}

// ------------------------------------------------------------------ C16
struct Boom { int id; };
#define NOTSAN __attribute__((no_sanitize("thread"), noinline))
struct Probe      // counts the copies of a job that exist
{
	// (not instrumented: a moved-from copy dies in the submitting thread while the job runs)
	int* n;
	NOTSAN explicit Probe(int* x): n(x) { ++*n; }
	NOTSAN Probe(Probe&& o): n(o.n) { ++*n; }
	NOTSAN Probe(Probe const& o): n(o.n) { ++*n; }
	NOTSAN ~Probe() { --*n; }
};
// kinds: 0 value, 1 value by throwing, 2 fire and forget, 3 the same throwing, 4 submits another job, 5 the same and throws
static void pool(int workers, std::vector<int> const& kinds, bool wait)
{
	size_t n = kinds.size();
	std::vector<int> runs(n, 0), nested(n, 0), alive(n, 0);
	std::vector<std::unique_ptr<Maike::Sched::ThreadPool::TaskResult<int>>> res(n);
	std::string what = std::to_string(workers) + " workers:";
	for(int k: kinds) what += " " + std::to_string(k);
	int first = -1, throwers = 0;
	{
		for(auto& r: res) r = nullptr;
		Maike::Sched::ThreadPool p{Maike::ThreadCount{std::to_string(workers).c_str()}};
		need(p.count() == (size_t)workers, "count", what + ": wrong number of workers");
		for(size_t k = 0; k < n; ++k)
		{
			auto& ran = runs[k];
			int id = (int)k;
			Probe pr{&alive[k]};
			switch(kinds[k])
			{
				case 0: res[k] = std::make_unique<Maike::Sched::ThreadPool::TaskResult<int>>(); p.addTask([&ran, id]() { ++ran; return 100 + id; }, *res[k]); break;
				case 1: res[k] = std::make_unique<Maike::Sched::ThreadPool::TaskResult<int>>(); p.addTask([&ran, id]() -> int { ++ran; throw Boom{id}; }, *res[k]); break;
				case 2: p.addTask([&ran, q = Probe{std::move(pr)}]() { ++ran; }); break;
				case 3: p.addTask([&ran, id]() { ++ran; throw Boom{id}; }); break;
				default: p.addTask([&ran, &nest = nested[k], &p, id, kind = kinds[k]]() { ++ran; p.addTask([&nest]() { ++nest; }); if(kind == 5) throw Boom{id}; });
			}
			if(kinds[k] == 3 || kinds[k] == 5) { ++throwers; if(first == -1) first = id; }
		}
		for(size_t k = 0; k < n; ++k)
		{
			if(!res[k]) continue;
			if(kinds[k] == 0)
			{
				need(res[k]->get() == 100 + (int)k, "result", what + ": a wrong result was delivered");
				need(res[k]->take() == 100 + (int)k, "result", what + ": a wrong result was delivered");
			}
			else
			{
				int got = -1;
				try { (void)res[k]->take(); } catch(Boom const& b) { got = b.id; }
				need(got == (int)k, "exception", what + ": the exception was not delivered");
			}
		}
		if(wait)
		{
			// as many jobs as workers that wait for each other: then everything before them has ended
			std::mutex m;
			std::condition_variable cv;
			int in = 0;
			std::vector<std::unique_ptr<Maike::Sched::ThreadPool::TaskResult<int>>> bar;
			for(int k = 0; k < workers; ++k)
			{
				bar.push_back(std::make_unique<Maike::Sched::ThreadPool::TaskResult<int>>());
				p.addTask([&]() { std::unique_lock l{m}; ++in; cv.notify_all(); cv.wait(l, [&]() { return in == workers; }); return 1; }, *bar.back());
			}
			for(auto& b: bar) need(b->get() == 1, "result", what + ": a wrong result was delivered");
			int got = -1;
			if(auto e = p.takeLastException()) { try { std::rethrow_exception(e); } catch(Boom const& b) { got = b.id; } }
			if(workers == 1) need(got == first, "last-exception", what + ": not the first exception was collected");
			else need((got >= 0 && (kinds[got] == 3 || kinds[got] == 5)) == (throwers > 0), "last-exception", what + ": no exception was collected");
			need(p.takeLastException() == nullptr, "last-exception", what + ": an exception was collected twice");
		}
		else if(throwers == 0) need(p.takeLastException() == nullptr, "last-exception", what + ": an exception appeared from nowhere");
	}
	for(size_t k = 0; k < n; ++k)
	{
		need(runs[k] == 1, "once", what + ": job " + std::to_string(k) + " ran " + std::to_string(runs[k]) + " times");
		if(kinds[k] >= 4) need(nested[k] == 1, "nested", what + ": a job submitted by job " + std::to_string(k) + " ran " + std::to_string(nested[k]) + " times");
		need(alive[k] == 0, "destroyed", what + ": a job was not destroyed exactly once");
	}
}
static void c16(Scens& v)
{
	for(int w = 1; w <= 3; ++w)
	{
		add(v, "empty/w" + std::to_string(w), 3, [w]() { pool(w, {}, false); });
		for(int len = 1; len <= 3; ++len)
			for(size_t i = 0; i < ipow(6, len); ++i)
			{
				std::vector<int> k;
				size_t q = i;
				for(int s = 0; s < len; ++s, q /= 6) k.push_back(q % 6);
				bool sorted = std::is_sorted(k.begin(), k.end());
				std::string nm = "w" + std::to_string(w) + "-";
				for(int x: k) nm += std::to_string(x);
				int b = len == 1 ? 3 : len == 2 ? (sorted && w < 3 ? 2 : 1) : sorted && w == 2 ? 2 : 1;
				if(thorough()) b = len == 1 ? 6 : len == 2 ? 4 : 3;
				add(v, "jobs:" + nm, b, [w, k]() { pool(w, k, false); });
				if(len <= 2) add(v, "wait:" + nm, thorough() ? 3 : len == 1 ? 2 : 1, [w, k]() { pool(w, k, true); });
			}
		add(v, "four/w" + std::to_string(w), thorough() ? 3 : 2, [w]() { pool(w, {2, 4, 0, 3}, false); });
	}
	// spurious wakeups
	for(int k = 0; k < 6; ++k)
	{
		mc::Options o;
		o.spurious = true;
		add(v, "spurious:" + std::to_string(k), thorough() ? 2 : 1, [k]() { pool(2, {k}, false); }, o);
	}
	// a result nobody asks for: destroying it waits for the job
	add(v, "abandoned", 3, []() {
		int ran = 0;
		Maike::Sched::ThreadPool p{Maike::ThreadCount{"2"}};
		{ Maike::Sched::ThreadPool::TaskResult<int> r; p.addTask([&ran]() { ++ran; return 1; }, r); }
		need(ran == 1, "abandoned", "a result was destroyed before its job had ended");
	});
	// the counter used to wait for jobs
	for(int n = 1; n <= 3; ++n)
		add(v, "counter" + std::to_string(n), n < 3 ? 3 : 2, [n]() {
			Maike::Sched::SignalingCounter<size_t> c{0};
			std::vector<int> done(n, 0);
			for(int k = 0; k < n; ++k) ++c;
			std::vector<std::thread> t;
			for(int k = 0; k < n; ++k) t.emplace_back([&c, &done, k]() { done[k] = 1; --c; });
			c.wait(0);
			for(int k = 0; k < n; ++k) need(done[k] == 1, "counter", "waiting ended before the counter was zero");
			for(auto& x: t) x.join();
		});
}

// ------------------------------------------------------------------ C17
static void c17(Scens& v)
{
	std::vector<size_t> W{1, 2, 5}, R{1, 2, 3, 8};
	for(int len = 0; len <= 3; ++len)
		for(size_t i = 0; i < ipow(W.size(), len); ++i)
			for(size_t r = 0; r < R.size() * R.size(); ++r)
			{
				std::vector<size_t> w;
				size_t q = i;
				for(int s = 0; s < len; ++s, q /= W.size()) w.push_back(W[q % W.size()]);
				size_t r0 = R[r % R.size()], r1 = R[r / R.size()];
				std::string nm = "pipe:";
				for(auto x: w) nm += std::to_string(x) + ".";
				nm += "/" + std::to_string(r0) + "," + std::to_string(r1);
				add(v, nm, thorough() ? (len <= 2 ? 4 : 3) : len <= 1 ? 3 : len == 2 ? 2 : 1, [w, r0, r1, nm]() {
					Maike::Io::Fifo<std::byte> f;
					std::string all, got;
					for(auto n: w) all += pattern('o', n, all.size());
					std::thread wr{[&]() { size_t o = 0; for(auto n: w) { f.write((std::byte const*)all.data() + o, n); o += n; } f.stop(); }};
					int k = 0;
					while(true)
					{
						std::byte b[16];
						auto n = f.read(b, k++ % 2 ? r1 : r0);
						if(n == 0) break;
						need(n <= (k % 2 ? r0 : r1), "overrun", nm + ": more was read than asked for");
						got.append((char const*)b, n);
					}
					need(got == all, "bytes", nm + ": " + std::to_string(got.size()) + " bytes were read instead of " + std::to_string(all.size()) + ", or other bytes");
					wr.join();
				});
			}
	// through the buffered writers and readers: every length around the buffer sizes
	for(size_t base: {0, 4096, 8192, 12288})
		for(int d = -3; d <= 3; ++d)
		{
			if((long)base + d < 0) continue;
			size_t n = base + d;
			for(int late = 0; late < 2; ++late)
				add(v, "buffered:" + std::to_string(n) + (late ? "l" : ""), thorough() ? 2 : 1, [n, late]() {
					Maike::Io::Fifo<std::byte> f;
					auto all = pattern('o', n);
					auto produce = [&]() {
						if(n) { Maike::Io::OutputBuffer<Maike::Io::Writer> o{Maike::Io::Writer{f}}; for(char c: all) o.putchar(c); }
						f.stop();
					};
					std::thread wr;
					if(late) wr = std::thread{produce}; else produce();
					std::string got;
					Maike::Io::InputBuffer<Maike::Io::Reader> in{Maike::Io::Reader{f}};
					int c;
					while((c = in.getchar()) != -1) { got += (char)c; if(got.size() > n) break; }
					need(got == all, "bytes", "buffered, " + std::to_string(n) + " bytes: " + std::to_string(got.size()) + " bytes were read, or other bytes");
					if(late) wr.join();
				});
		}
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g == "C15") c15(v);
		if(g == "C16") c16(v);
		if(g == "C17") c17(v);
		return v;
	});
}
