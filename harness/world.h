// A scratch project directory, virtual recipes, and runs of maike's main() under the controlled scheduler.
#pragma once
#include "mc/explore.h"
#include "json.h"
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <poll.h>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <set>
#include <deque>

extern "C" int maike_main(int, char**);

namespace wp
{
	namespace fs = std::filesystem;
	using Strs = std::vector<std::string>;

	inline uint64_t fnv(std::string const& s, uint64_t h = 1469598103934665603ull) { for(unsigned char c: s) { h ^= c; h *= 1099511628211ull; } return h; }
	inline std::string hex(uint64_t v) { char b[20]; snprintf(b, 20, "%016lx", v); return b; }
	inline std::string slurp(std::string const& p)
	{
		int fd = ::open(p.c_str(), O_RDONLY | O_CLOEXEC);
		if(fd < 0) return "<missing>";
		std::string r;
		char b[8192];
		ssize_t n;
		while((n = ::read(fd, b, sizeof b)) > 0) r.append(b, n);
		::close(fd);
		return r;
	}
	inline std::string norm(std::string const& p) { auto s = fs::path(p).lexically_normal().string(); if(s.size() > 1 && s.back() == '/') s.pop_back(); return s; }

	struct Inv
	{
		std::string path;
		Strs args;
		uint64_t t0{0}, t1{0};
		int code{0}, sig{0};
		bool ended{false};
		J j;                     // parsed args[1]
		std::string mode() const { return args.empty() ? "" : args[0]; }
		std::string src() const { auto p = j.find("source_file"); return p ? p->s : ""; }
	};

	struct Beh
	{
		int code{0}, sig{0};
		int write{2};            // 0 nothing, 1 partial garbage, 2 complete
		int noexec{0};           // errno of a failing launch
		bool set_out{false};
		std::string out, err;
		bool die_build{false};   // the build is killed at this point (crash point)
	};
	using Plan = std::function<Beh(Inv const&)>;

	struct Run
	{
		int verdict{0};
		std::string tag, msg;
		int exit_code{-1};
		std::vector<Inv> invs;
		std::string out, err;
		uint32_t steps{0};
		int live{0}, zombies{0}, fds{0};
		std::vector<Inv const*> compiles() const { std::vector<Inv const*> r; for(auto& i: invs) if(i.mode() == "compile") r.push_back(&i); return r; }
		std::multiset<std::string> compiled() const { std::multiset<std::string> r; for(auto& i: invs) if(i.mode() == "compile") r.insert(norm(i.src())); return r; }
		std::string dump() const
		{
			std::string s = "verdict=" + std::to_string(verdict) + " " + tag + " " + msg + " exit=" + std::to_string(exit_code) + "\n";
			for(auto& i: invs) { s += "[" + std::to_string(i.t0) + "-" + std::to_string(i.t1) + "] " + i.path; for(auto& a: i.args) s += " " + a; s += " -> " + std::to_string(i.code) + "/" + std::to_string(i.sig) + "\n"; }
			return s + "stdout:\n" + out + "stderr:\n" + err;
		}
	};

	struct Shm { uint64_t clock; uint64_t len; char data[8 << 20]; };

	struct World
	{
		std::string base, dir;
		Shm* shm;
		mc::Result* res;
		explicit World(bool fixed = true)
		{
			char const* b = getenv("MC_SCRATCH");
			base = std::string(b ? b : "/dev/shm/maike-mc-default") + "/w" + (mc::worker_index < 10 ? "0" : "") + std::to_string(mc::worker_index);
			dir = base + "/proj";
			shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			res = (mc::Result*)mmap(nullptr, sizeof(mc::Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
			shm->clock = 1000000;
			reset();
		}
		void reset()
		{
			std::error_code ec;
			fs::remove_all(base, ec);
			fs::create_directories(dir);
			fs::create_directories(base + "/inst/bin");
			fs::create_directories(base + "/inst/lib/maike2/recipes");
			touch(".");
		}
		uint64_t tick() { return ++shm->clock; }
		std::string abs(std::string const& p) const { return p[0] == '/' ? p : dir + "/" + p; }
		void stamp(std::string const& p, uint64_t t) const
		{
			// successive times differ by a nanosecond, by parts of a second, and across seconds
			static long const part[4] = {0, 1, 500000000, 999999999};
			timespec x{(time_t)(t / 4), part[t % 4]};
			timespec ts[2] = {x, x};
			utimensat(AT_FDCWD, abs(p).c_str(), ts, 0);
		}
		static uint64_t stampOf(struct stat const& st) { auto n = st.st_mtim.tv_nsec; return st.st_mtim.tv_sec * 4 + (n < 1 ? 0 : n < 500000000 ? 1 : n < 999999999 ? 2 : 3); }
		void touch(std::string const& p) { stamp(p, tick()); }
		void put(std::string const& p, std::string const& c, bool exec = false)
		{
			auto a = abs(p);
			makeDirs(fs::path(a).parent_path().string());
			bool fresh = !exists(p);
			int fd = ::open(a.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, exec ? 0755 : 0644);
			if(fd < 0) { perror(a.c_str()); mc::fail("harness", "cannot write " + a); }
			size_t o = 0;
			while(o < c.size()) { ssize_t n = ::write(fd, c.data() + o, c.size() - o); if(n <= 0) break; o += n; }
			if(exec) fchmod(fd, 0755);
			::close(fd);
			touch(p);
			if(fresh) stampParent(p);
		}
		void rm(std::string const& p)
		{
			if(::unlink(abs(p).c_str())) return;
			tick();
			stampParent(p);
		}
		// directories carry logical times too: that of the last change of their entries
		void stampParent(std::string const& p)
		{
			auto d = fs::path(abs(p)).parent_path().string();
			if(d.size() >= dir.size()) stamp(d, shm->clock);
		}
		bool makeDir(std::string const& p)
		{
			if(::mkdir(abs(p).c_str(), 0755)) return false;
			touch(p);
			stampParent(p);
			return true;
		}
		void makeDirs(std::string const& p)
		{
			struct stat st;
			if(::stat(p.c_str(), &st) == 0) return;
			makeDirs(fs::path(p[p.size() - 1] == '/' ? p.substr(0, p.size() - 1) : p).parent_path().string());
			makeDir(p);
		}
		bool exists(std::string const& p) const { struct stat st; return ::stat(abs(p).c_str(), &st) == 0; }
		std::string get(std::string const& p) const { return slurp(abs(p)); }
		// path -> content ("<dir>" for directories), everything below the project directory
		std::map<std::string, std::string> snap(bool mtimes = false) const
		{
			std::map<std::string, std::string> r;
			std::error_code ec;
			for(auto i = fs::recursive_directory_iterator(dir, ec); i != fs::recursive_directory_iterator(); i.increment(ec))
			{
				auto rel = i->path().lexically_relative(dir).string();
				std::string v = i->is_directory() ? "<dir>" : slurp(i->path().string());
				if(mtimes) { struct stat st; ::lstat(i->path().c_str(), &st); if(!i->is_directory()) v += "@" + std::to_string(st.st_mtim.tv_sec) + "." + std::to_string(st.st_mtim.tv_nsec) + ":" + std::to_string(st.st_mode); }
				r[rel] = v;
			}
			return r;
		}
	};

	// -------- state of the build running in this process
	struct Ctx
	{
		World* w{nullptr};
		Plan plan;
		std::deque<Inv> invs;
		int out_fd{-1}, err_fd{-1};
		int rc{-1};
		Strs argstore;
		std::function<void(Inv&, mc::VProc&)> extra;   // additional actions of a compile program
	};
	inline Ctx* ctx = nullptr;

	// content model of the virtual compiler: what a correct invocation writes
	inline std::string depContent(World& w, std::string const& ref)
	{
		struct stat st;
		auto a = w.abs(ref);
		if(::stat(a.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) return "<dir>";
		return slurp(a);
	}
	inline std::string compileOutput(World& w, J const& j, std::string const& target)
	{
		std::string s = "T(" + norm(target) + ")S(" + slurp(w.abs(j.at("source_file").s)) + ")C(" + j.at("compiler_cfg").dump() + ")";
		std::map<std::string, std::string> deps;
		for(auto& d: j.at("dependencies").a)
		{
			auto o = d.at("origin").s;
			if(o != "project" && o != "generated") continue;
			auto ref = norm(d.at("ref").s);
			deps[ref] = depContent(w, ref);
		}
		for(auto& d: deps) s += "D(" + d.first + "=" + hex(fnv(d.second)) + ")";
		return "built " + hex(fnv(s)) + " of " + norm(target) + "\n";
	}

	inline void writeTarget(World& w, std::string const& t, std::string const& c)
	{
		auto a = w.abs(t);
		bool fresh = !w.exists(t);
		int fd = ::open(a.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644);
		if(fd < 0) return;
		size_t o = 0;
		while(o < c.size()) { ssize_t n = ::write(fd, c.data() + o, c.size() - o); if(n <= 0) break; o += n; }
		::close(fd);
		w.touch(t);
		if(fresh) w.stampParent(t);
	}

	inline mc::ExitBy program(mc::VProc& p)
	{
		auto& c = *ctx;
		c.invs.emplace_back();
		Inv& inv = c.invs.back();
		inv.path = p.path;
		inv.args = p.args;
		if(p.args.size() > 1) parseJson(p.args[1], inv.j);
		auto src = inv.src();
		mc::event(&c, fnv("start" + inv.mode() + norm(src)));
		inv.t0 = mc::now();
		Beh b = c.plan ? c.plan(inv) : Beh{};
		if(inv.mode() == "configure") { if(!b.set_out) b.out = p.args.size() > 1 ? p.args[1] : ""; }
		else if(inv.mode() == "compile" && p.args.size() > 1 && inv.j.t == J::Obj)
		{
			bool isdir = false;
			struct stat st;
			if(::stat(c.w->abs(src).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) isdir = true;
			std::vector<std::pair<std::string, std::string>> outs;
			if(auto t = inv.j.find("targets"))
				for(auto& x: t->a) outs.push_back({x.s, isdir ? "" : compileOutput(*c.w, inv.j, x.s)});
			mc::fsWriteEvent(&c);
			if(c.extra) c.extra(inv, p);
			if(b.write)
				for(auto& o: outs)
				{
					if(isdir) c.w->makeDir(o.first);
					else writeTarget(*c.w, o.first, b.write == 1 ? std::string("partial ") + o.first : o.second);
				}
		}
		if(b.die_build) mc::finish(77);
		if(!b.out.empty()) p.writeAll(1, b.out);
		if(!b.err.empty()) p.writeAll(2, b.err);
		mc::event(&c, fnv("end" + inv.mode() + norm(src)));
		inv.t1 = mc::now();
		inv.ended = true;
		inv.code = b.code;
		inv.sig = b.sig;
		return mc::ExitBy{b.code, b.sig};
	}

	inline void redirect()
	{
		fflush(nullptr);
		ctx->out_fd = memfd_create("out", MFD_CLOEXEC);
		ctx->err_fd = memfd_create("err", MFD_CLOEXEC);
		dup2(ctx->out_fd, 1);
		dup2(ctx->err_fd, 2);
		int n = open("/dev/null", O_RDONLY);
		dup2(n, 0);
		::close(n);
	}
	inline std::string readFd(int fd)
	{
		std::string s;
		char b[65536];
		off_t o = 0;
		ssize_t n;
		while((n = pread(fd, b, sizeof b, o)) > 0) { s.append(b, n); o += n; }
		return s;
	}

	// runs in the controlled process
	inline Run execMain(World& w, Strs args, Plan plan, int rdperm = 0, std::function<void()> prep = {})
	{
		// ctx and redirect() must already be set up
		mc::ProcEnv env;
		env.program = program;
		Ctx* c = ctx;
		env.exec_check = [c](std::string const& path, std::vector<std::string> const& argv) -> int {
			struct stat st;
			if(::stat(path.c_str(), &st) != 0) return errno;
			if(!S_ISREG(st.st_mode) || !(st.st_mode & 0111)) return EACCES;
			if(argv.size() > 1 && argv[1] == "compile") mc::fireExploreTrigger();
			if(c->plan)
			{
				Inv i;
				i.path = path;
				i.args.assign(argv.begin() + 1, argv.end());
				if(i.args.size() > 1) parseJson(i.args[1], i.j);
				return c->plan(i).noexec;
			}
			return 0;
		};
		c->plan = plan;
		mc::setProcEnv(std::move(env));
		mc::setReaddirPermutation(rdperm);
		mc::setSelfExe(w.base + "/inst/bin/maike2");
		if(prep) prep();
		args.insert(args.begin(), "maike2");
		c->argstore = args;
		std::vector<char*> av;
		for(auto& a: c->argstore) av.push_back(a.data());
		av.push_back(nullptr);
		Run r;
		r.exit_code = maike_main((int)c->argstore.size(), av.data()) & 0xff;
		fflush(stdout);
		fflush(stderr);
		r.verdict = mc::V_OK;
		r.out = readFd(c->out_fd);
		r.err = readFd(c->err_fd);
		r.invs.assign(c->invs.begin(), c->invs.end());
		r.live = mc::liveProcesses();
		r.zombies = mc::zombies();
		r.fds = mc::openVirtualFds();
		r.steps = (uint32_t)mc::stepCount();
		return r;
	}

	struct Ser
	{
		std::string b;
		void u(uint64_t v) { b.append((char*)&v, 8); }
		void s(std::string const& x) { u(x.size()); b += x; }
	};
	struct De
	{
		char const* p;
		uint64_t u() { uint64_t v; memcpy(&v, p, 8); p += 8; return v; }
		std::string s() { auto n = u(); std::string x(p, n); p += n; return x; }
	};

	struct BuildOpt { int workers{1}; int rdperm{0}; mc::Options mco; std::string cwd; int timeout_s{20}; };

	inline Run buildOnce(World& w, Strs const& args, Plan const& plan, BuildOpt const& o, int timeout)
	{
		auto r = w.res;
		r->verdict = mc::V_NONE;
		r->msg[0] = r->tag[0] = 0;
		r->nsteps = r->npoints = 0;
		w.shm->len = 0;
		auto exited = [](pid_t pid, int& st, int tmo) {
			for(int k = 0;; ++k)
			{
				pid_t x = waitpid(pid, &st, WNOHANG);
				if(x == pid) return true;
				sigset_t ss;
				sigemptyset(&ss);
				sigaddset(&ss, SIGCHLD);
				timespec ts{0, 200000000};
				sigtimedwait(&ss, nullptr, &ts);
				static thread_local timespec t0;
				if(k == 0) clock_gettime(CLOCK_MONOTONIC, &t0);
				timespec t1;
				clock_gettime(CLOCK_MONOTONIC, &t1);
				if(t1.tv_sec - t0.tv_sec > tmo) return false;
			}
		};
		pid_t pid = fork();
		if(pid == -1) mc::fail("harness", "fork failed");
		if(pid == 0)
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			ctx = new Ctx;
			ctx->w = &w;
			if(!o.cwd.empty()) w.dir = w.abs(o.cwd);
			if(chdir(w.dir.c_str())) _exit(9);
			redirect();
			mc::Options mo = o.mco;
			mo.record = false;
			mc::runControlled(mo, {}, r, [&]() {
				Strs a = args;
				if(o.workers) a.push_back("--num-workers=" + std::to_string(o.workers));
				Run run = execMain(w, a, plan, o.rdperm);
				Ser s;
				s.u(run.exit_code);
				s.s(run.out);
				s.s(run.err);
				s.u(run.live);
				s.u(run.zombies);
				s.u(run.fds);
				s.u(run.invs.size());
				for(auto& i: run.invs)
				{
					s.s(i.path);
					s.u(i.args.size());
					for(auto& x: i.args) s.s(x);
					s.u(i.t0);
					s.u(i.t1);
					s.u(i.code);
					s.u(i.sig);
					s.u(i.ended);
				}
				if(s.b.size() > sizeof(w.shm->data)) mc::fail("harness", "result too large");
				memcpy(w.shm->data, s.b.data(), s.b.size());
				w.shm->len = s.b.size();
				mc::finish(0);
			});
		}
		int st = 0;
		Run run;
		if(!exited(pid, st, timeout)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); if(r->verdict == mc::V_NONE) { run.verdict = mc::V_TIMEOUT; run.tag = "timeout"; run.msg = "maike did not end within " + std::to_string(timeout) + " s although every process it started had ended"; return run; } }
		if(r->verdict == mc::V_NONE) { run.verdict = mc::V_CRASH; run.tag = "crash"; run.msg = "the process ended unexpectedly, wait status " + std::to_string(st); return run; }
		run.verdict = r->verdict;
		run.tag = r->tag;
		run.msg = r->msg;
		run.steps = r->nsteps;
		if(run.verdict == mc::V_HARNESS || run.verdict == mc::V_OVERFLOW) mc::fail("harness", run.msg);
		if(w.shm->len)
		{
			De d{w.shm->data};
			run.exit_code = d.u();
			run.out = d.s();
			run.err = d.s();
			run.live = d.u();
			run.zombies = d.u();
			run.fds = d.u();
			auto n = d.u();
			for(uint64_t k = 0; k < n; ++k)
			{
				Inv i;
				i.path = d.s();
				auto na = d.u();
				for(uint64_t q = 0; q < na; ++q) i.args.push_back(d.s());
				i.t0 = d.u();
				i.t1 = d.u();
				i.code = d.u();
				i.sig = d.u();
				i.ended = d.u();
				if(i.args.size() > 1) parseJson(i.args[1], i.j);
				run.invs.push_back(std::move(i));
			}
		}
		auto cr = mc::currentResult();
		++cr->inner;
		cr->inner_steps += run.steps;
		return run;
	}
	inline Run build(World& w, Strs const& args, Plan const& plan = {}, BuildOpt const& o = {})
	{
		Run r = buildOnce(w, args, plan, o, o.timeout_s);
		return r;
	}
}
