#include "explore.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/socket.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <unistd.h>
#include <string.h>
#include <errno.h>
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <algorithm>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <fstream>
#include <sstream>

namespace mc
{
namespace
{
	double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

	Result* mapResult()
	{
		void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		if(p == MAP_FAILED) { perror("mmap"); exit(3); }
		return (Result*)p;
	}

	// fork a child, run, wait with timeout
	void execOne(Scenario const& s, std::vector<Dev> const& devs, Result* r, bool trace, double timeout)
	{
		r->verdict = V_NONE;
		r->npoints = 0;
		r->nsteps = 0;
		r->inner = r->inner_states = r->inner_steps = 0;
		r->msg[0] = r->tag[0] = r->trace[0] = 0;
		pid_t pid = fork();
		if(pid == -1) { perror("fork"); _exit(3); }
		if(pid == 0)
		{
			prctl(PR_SET_PDEATHSIG, SIGKILL);
			Options o = s.opt;
			o.trace = trace;
			if(s.plain)
			{
				plainInit(r);
				if(s.setup) s.setup();
				s.body();
				mc::finish(0);
			}
			if(s.setup) s.setup();
			runControlled(o, devs, r, s.body);
		}
		sigset_t ss;
		sigemptyset(&ss);
		sigaddset(&ss, SIGCHLD);
		double end = nowS() + timeout;
		int st;
		while(true)
		{
			pid_t w = waitpid(pid, &st, WNOHANG);
			if(w == pid) break;
			double left = end - nowS();
			if(left <= 0)
			{
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				if(r->verdict == V_NONE) { r->verdict = V_TIMEOUT; snprintf(r->tag, sizeof r->tag, "timeout"); snprintf(r->msg, sizeof r->msg, "execution did not finish within %.0f s of wall time", timeout); }
				return;
			}
			timespec ts{(time_t)left, 100000000};
			if(left < 1) { ts.tv_sec = 0; ts.tv_nsec = (long)(left * 1e9) + 1000; }
			sigtimedwait(&ss, nullptr, &ts);
		}
		if(r->verdict == V_NONE)
		{
			r->verdict = V_CRASH;
			snprintf(r->tag, sizeof r->tag, "crash");
			snprintf(r->msg, sizeof r->msg, "program under test ended the process unexpectedly (wait status 0x%x)", st);
		}
	}

	struct Job { uint32_t scen; uint32_t cost; std::vector<Dev> devs; };
	struct JobHdr { uint32_t scen; uint32_t ndev; uint32_t trace; uint32_t tmo; };

	struct Worker { int fd; Result* res; bool busy; Job job; pid_t pid; };

	bool readN(int fd, void* p, size_t n)
	{
		char* c = (char*)p;
		while(n) { ssize_t k = ::read(fd, c, n); if(k <= 0) { if(k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; }
		return true;
	}
	bool writeN(int fd, void const* p, size_t n)
	{
		char const* c = (char const*)p;
		while(n) { ssize_t k = ::write(fd, c, n); if(k <= 0) { if(k < 0 && errno == EINTR) continue; return false; } c += k; n -= k; }
		return true;
	}

	void workerLoop(int fd, Result* r, std::vector<Scenario> const& scen, int cpu)
	{
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		worker_index = cpu;
		sigset_t ss;
		sigemptyset(&ss);
		sigaddset(&ss, SIGCHLD);
		sigprocmask(SIG_BLOCK, &ss, nullptr);
		cpu_set_t all, one;
		if(sched_getaffinity(0, sizeof all, &all) == 0)
		{
			int n = CPU_COUNT(&all), want = n ? cpu % n : 0, k = 0;
			for(int i = 0; i < CPU_SETSIZE; ++i)
				if(CPU_ISSET(i, &all) && k++ == want) { CPU_ZERO(&one); CPU_SET(i, &one); sched_setaffinity(0, sizeof one, &one); break; }
		}
		JobHdr h;
		while(readN(fd, &h, sizeof h))
		{
			std::vector<Dev> d(h.ndev);
			if(h.ndev && !readN(fd, d.data(), h.ndev * sizeof(Dev))) break;
			execOne(scen[h.scen], d, r, h.trace, h.tmo);
			char ok = 1;
			if(!writeN(fd, &ok, 1)) break;
		}
		_exit(0);
	}
}

Result* runOnce(Scenario const& s, std::vector<Dev> const& devs, bool trace)
{
	auto r = mapResult();
	sigset_t ss, old;
	sigemptyset(&ss);
	sigaddset(&ss, SIGCHLD);
	sigprocmask(SIG_BLOCK, &ss, &old);
	execOne(s, devs, r, trace, s.timeout_s * 3);
	sigprocmask(SIG_SETMASK, &old, nullptr);
	return r;
}

std::vector<Violation> explore(std::vector<Scenario> const& scen, ExploreConfig const& cfg, Stats& st)
{
	std::vector<Violation> out;
	std::vector<Worker> ws(cfg.jobs);
	for(int i = 0; i < cfg.jobs; ++i)
	{
		int sv[2];
		if(socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); exit(3); }
		ws[i].res = mapResult();
		ws[i].busy = false;
		fflush(nullptr);
		ws[i].pid = fork();
		if(ws[i].pid == 0)
		{
			for(int k = 0; k < i; ++k) close(ws[k].fd);
			close(sv[0]);
			workerLoop(sv[1], ws[i].res, scen, i);
		}
		close(sv[1]);
		ws[i].fd = sv[0];
	}

	double t0 = nowS();
	// per scenario: buckets by cost
	struct SState { std::vector<std::deque<Job>> buckets; std::unordered_set<uint64_t> seen; uint64_t execs{0}; uint32_t inflight{0}; uint32_t level{0}; bool done{false}; bool capped{false}; std::unordered_set<uint64_t> outcomes; };
	std::vector<SState> ss(scen.size());
	std::deque<uint32_t> activeS;
	size_t next_s = 0;
	std::unordered_set<uint64_t> outcomes;
	size_t inflight = 0;
	bool stop = false;
	bool deadline_hit = false;

	auto openScenario = [&]() {
		if(next_s >= scen.size()) return false;
		auto& x = ss[next_s];
		x.buckets.resize(scen[next_s].bound + 1);
		x.buckets[0].push_back(Job{(uint32_t)next_s, 0, {}});
		activeS.push_back(next_s);
		++next_s;
		return true;
	};

	auto pickJob = [&](Job& j) -> bool {
		for(size_t tries = 0; tries < 2; ++tries)
		{
			for(size_t k = 0; k < activeS.size(); ++k)
			{
				auto si = activeS[k];
				auto& x = ss[si];
				while(x.level < x.buckets.size() && x.buckets[x.level].empty() && x.inflight == 0) ++x.level;
				if(x.level >= x.buckets.size() || (scen[si].max_execs && x.execs >= scen[si].max_execs))
				{
					if(x.level < x.buckets.size()) x.capped = true;
					if(x.inflight == 0)
					{
						if(x.capped) ++st.capped; else { st.max_bound = std::max(st.max_bound, scen[si].bound); st.min_bound = std::min(st.min_bound, scen[si].bound); }
						++st.scenarios;
						for(auto o: x.outcomes) outcomes.insert(o);
						x.done = true;
						x.buckets.clear();
						std::unordered_set<uint64_t>().swap(x.seen);
						activeS.erase(activeS.begin() + k);
						--k;
					}
					continue;
				}
				auto& b = x.buckets[x.level];
				if(b.empty()) continue;
				j = std::move(b.back());
				b.pop_back();
				return true;
			}
			if(activeS.size() >= (size_t)cfg.jobs * 2 || !openScenario()) break;
			tries = 0;
		}
		return false;
	};

	auto send = [&](Worker& w, Job&& j, bool trace, uint32_t tmo) {
		JobHdr h{j.scen, (uint32_t)j.devs.size(), trace, tmo};
		w.job = std::move(j);
		w.busy = true;
		if(!writeN(w.fd, &h, sizeof h) || (h.ndev && !writeN(w.fd, w.job.devs.data(), h.ndev * sizeof(Dev)))) { fprintf(stderr, "worker died\n"); exit(3); }
	};
	auto waitReply = [&](Worker& w) { char c; if(!readN(w.fd, &c, 1)) { fprintf(stderr, "worker died\n"); exit(3); } w.busy = false; };

	int unreplayed = 0;
	while(true)
	{
		if(cfg.deadline_s > 0 && nowS() - t0 > cfg.deadline_s && !stop) { stop = true; deadline_hit = true; }
		for(auto& w: ws)
		{
			if(w.busy || stop) continue;
			Job j;
			if(!pickJob(j)) break;
			++ss[j.scen].inflight;
			++inflight;
			++ss[j.scen].execs;
			auto tmo = scen[j.scen].timeout_s;
			send(w, std::move(j), false, tmo);
		}
		if(inflight == 0)
		{
			if(stop) break;
			Job j;
			if(pickJob(j)) { ss[j.scen].buckets[j.cost].push_back(std::move(j)); continue; }
			break;
		}
		std::vector<pollfd> pf;
		std::vector<Worker*> pw;
		for(auto& w: ws) if(w.busy) { pf.push_back({w.fd, POLLIN, 0}); pw.push_back(&w); }
		poll(pf.data(), pf.size(), 1000);
		for(size_t k = 0; k < pf.size(); ++k)
		{
			if(!(pf[k].revents & (POLLIN | POLLHUP))) continue;
			auto& w = *pw[k];
			waitReply(w);
			--inflight;
			Job job = w.job;
			auto& x = ss[job.scen];
			auto const& sc = scen[job.scen];
			--x.inflight;
			auto r = w.res;
			++st.executions;
			st.points += r->npoints;
			st.steps += r->nsteps;
			st.inner += r->inner;
			st.inner_states += r->inner_states;
			st.inner_steps += r->inner_steps;
			st.max_points = std::max(st.max_points, r->npoints);
			if(stop) continue;
			int v = r->verdict;
			if(v == V_TIMEOUT)
			{
				// re-run alone with a longer limit before calling it a hang
				send(w, Job{job}, false, sc.timeout_s * 4);
				waitReply(w);
				v = r->verdict;
			}
			if(v == V_OVERFLOW || v == V_DIVERGED || v == V_HARNESS)
			{
				fprintf(stderr, "HARNESS-ERROR scenario=%s: %s: %s\n", sc.name.c_str(), r->tag, r->msg);
				exit(3);
			}
			if(v == V_OK) x.outcomes.insert(r->outcome);
			if(v != V_OK && !(v == V_RACE && !sc.race_is_violation))
			{
				Violation vi;
				vi.scenario = sc.name;
				vi.tag = r->tag;
				vi.msg = r->msg;
				vi.devs = job.devs;
				// replay before report
				bool again = false;
				for(int k = 0; k < 4 && !again; ++k)
				{
					Job j2 = job;
					send(w, std::move(j2), true, sc.timeout_s * 4);
					waitReply(w);
					again = r->verdict == v && vi.tag == r->tag;
				}
				if(!again)
				{
					// the code under test does something else each time, on the same schedule and files: one such
					// case is put down to the machinery, several are reported
					fprintf(stderr, "%s scenario=%s: violation did not replay (%s: %s) -> verdict %d %s %s\n", ++unreplayed > 2 ? "UNSTABLE" : "NOTE", sc.name.c_str(), vi.tag.c_str(), vi.msg.c_str(), r->verdict, r->tag, r->msg);
					if(unreplayed > 2) vi.msg += " (does not happen on every run)";
					else { st.notes.push_back("not replayed: " + vi.scenario + ":" + vi.tag); continue; }
				}
				vi.trace = r->trace;
				if(cfg.known && cfg.known(vi)) { st.notes.push_back("known:" + vi.scenario + ":" + vi.tag + ":" + vi.msg); }
				else
				{
					out.push_back(std::move(vi));
					if((int)out.size() >= cfg.max_violations) stop = true;
				}
				// do not branch below a failing execution of this scenario
				x.level = x.buckets.size();
				for(auto& b: x.buckets) b.clear();
				continue;
			}
			if(x.buckets.empty()) continue;
			size_t first = job.devs.empty() ? 0 : job.devs.back().idx + 1;
			for(size_t i = first; i < r->npoints; ++i)
			{
				auto const& p = r->points[i];
				uint64_t key = p.sig * 0x9E3779B97F4A7C15ull + p.cur * 1315423911ull + p.flags;
				if(!x.seen.insert(key).second) { ++st.pruned; break; }
				uint32_t c = job.cost + ((p.flags & 1) || !sc.opt.free_np ? 1 : 0);
				if(c > (uint32_t)sc.bound) continue;
				for(uint32_t a = 1; a < p.n; ++a)
				{
					Job nj;
					nj.scen = job.scen;
					nj.cost = c;
					nj.devs = job.devs;
					nj.devs.push_back(Dev{(uint32_t)i, a, p.sig});
					x.buckets[c].push_back(std::move(nj));
				}
			}
		}
	}
	for(size_t i = 0; i < ss.size(); ++i)
		if(!ss[i].done) for(auto o: ss[i].outcomes) outcomes.insert(o);
	st.distinct_outcomes = outcomes.size();
	if(deadline_hit)
	{
		size_t left = 0;
		for(auto& x: ss) if(!x.done) ++left;
		st.capped += left;
		st.notes.push_back("deadline reached: " + std::to_string(left) + " of " + std::to_string(scen.size()) + " scenarios not completed");
	}
	for(size_t i = 0; i < scen.size(); ++i) st.per_scenario[scen[i].name.substr(0, scen[i].name.find(':'))] += ss[i].execs;
	for(auto& w: ws) close(w.fd);
	for(auto& w: ws) { int s; waitpid(w.pid, &s, 0); }
	return out;
}

static std::string jstr(std::string const& s)
{
	std::string r = "\"";
	for(unsigned char c: s)
	{
		if(c == '"' || c == '\\') { r += '\\'; r += c; }
		else if(c == '\n') r += "\\n";
		else if(c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}

int harnessMain(int argc, char** argv, std::function<std::vector<Scenario>(std::string const&, std::string const&)> make)
{
	// same address-space layout in every run
	if(!getenv("MC_NOASLR"))
	{
		setenv("MC_NOASLR", "1", 1);
		int p = personality(0xffffffff);
		if(p != -1 && personality(p | ADDR_NO_RANDOMIZE) != -1) { execv("/proc/self/exe", argv); }
	}
	std::string group, tier = "quick", out, replay, vdir = ".", only;
	ExploreConfig cfg;
	bool list = false;
	std::vector<std::pair<std::string, std::string>> known;
	for(int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		auto next = [&]() { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
		if(a == "--group") group = next();
		else if(a == "--tier") tier = next();
		else if(a == "--out") out = next();
		else if(a == "--replay") replay = next();
		else if(a == "--vdir") vdir = next();
		else if(a == "--jobs") cfg.jobs = atoi(next().c_str());
		else if(a == "--deadline") cfg.deadline_s = atof(next().c_str());
		else if(a == "--only") only = next();
		else if(a == "--list") list = true;
		else if(a == "--known") { auto s = next(); auto t = next(); known.push_back({s, t}); }
		else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	if(!replay.empty())
	{
		std::ifstream f(replay);
		std::string line, name;
		std::vector<Dev> devs;
		while(std::getline(f, line))
		{
			std::istringstream is(line);
			std::string k;
			is >> k;
			if(k == "group") is >> group;
			if(k == "tier") is >> tier;
			if(k == "scenario") { is >> std::ws; std::getline(is, name); }
			if(k == "dev") { Dev d{}; is >> d.idx >> d.choice; devs.push_back(d); }
		}
		auto sc = make(group, tier);
		for(auto& s: sc)
			if(s.name == name)
			{
				auto r = runOnce(s, devs, true);
				printf("scenario: %s\nverdict: %d tag=%s\n%s\n--- schedule ---\n%s\n", name.c_str(), r->verdict, r->tag, r->msg, r->trace);
				return r->verdict == V_OK ? 0 : 1;
			}
		fprintf(stderr, "no such scenario: %s\n", name.c_str());
		return 3;
	}
	auto sc = make(group, tier);
	if(!only.empty()) { std::vector<Scenario> t; for(auto& s: sc) if(s.name.find(only) != std::string::npos) t.push_back(s); sc = std::move(t); }
	if(list) { for(auto& s: sc) printf("%s\n", s.name.c_str()); return 0; }
	if(sc.empty()) { fprintf(stderr, "no scenarios for group %s\n", group.c_str()); return 3; }
	cfg.known = [&known](Violation const& v) {
		for(auto& k: known)
			if(v.scenario == k.first && v.tag == k.second) return true;
		return false;
	};
	Stats st;
	double t0 = nowS();
	auto vs = explore(sc, cfg, st);
	// determinism self-check: replay the default schedule of the first scenario twice
	{
		auto a = runOnce(sc[0], {}, true);
		auto b = runOnce(sc[0], {}, true);
		bool same = a->verdict == b->verdict && a->npoints == b->npoints && a->outcome == b->outcome;
		for(uint32_t i = 0; same && i < a->npoints; ++i) same = a->points[i].sig == b->points[i].sig && a->points[i].n == b->points[i].n;
		st.notes.push_back(same ? "replay-determinism: ok" : "replay-determinism: MISMATCH");
		if(!same) fprintf(stderr, "warning: two replays of the default schedule of %s differ\n", sc[0].name.c_str());
	}
	double el = nowS() - t0;
	std::string sample;
	{
		auto& s0 = sc[sc.size() / 2];
		auto a = runOnce(s0, {}, true);
		sample = s0.name + "\n" + std::string(a->trace).substr(0, 1800);
	}
	std::ostringstream js;
	js << "{\"group\":" << jstr(group) << ",\"tier\":" << jstr(tier) << ",\"executions\":" << st.executions << ",\"points\":" << st.points << ",\"steps\":" << st.steps
	   << ",\"pruned\":" << st.pruned << ",\"scenarios\":" << sc.size() << ",\"completed\":" << st.scenarios << ",\"capped\":" << st.capped << ",\"max_bound\":" << st.max_bound
	   << ",\"min_bound\":" << (st.min_bound == 1000 ? 0 : st.min_bound) << ",\"max_points\":" << st.max_points << ",\"distinct_outcomes\":" << st.distinct_outcomes << ",\"inner\":" << st.inner << ",\"inner_states\":" << st.inner_states << ",\"inner_steps\":" << st.inner_steps << ",\"wall_s\":" << el << ",\"per_family\":{";
	bool f = true;
	for(auto& p: st.per_scenario) { js << (f ? "" : ",") << jstr(p.first) << ":" << p.second; f = false; }
	js << "},\"notes\":[";
	f = true;
	for(auto& n: st.notes) { js << (f ? "" : ",") << jstr(n); f = false; }
	js << "],\"sample\":" << jstr(sample) << ",\"violations\":[";
	f = true;
	int k = 0;
	for(auto& v: vs)
	{
		std::string file = vdir + "/" + group + "_" + std::to_string(k++) + ".replay";
		{
			std::ofstream o(file);
			o << "# replay: <harness> --replay " << file << "\ngroup " << group << "\ntier " << tier << "\nscenario " << v.scenario << "\n";
			for(auto& d: v.devs) o << "dev " << d.idx << " " << d.choice << "\n";
			o << "# tag: " << v.tag << "\n";
			std::istringstream is(v.msg + "\n--- schedule ---\n" + v.trace);
			std::string l;
			while(std::getline(is, l)) o << "# " << l << "\n";
		}
		js << (f ? "" : ",") << "{\"scenario\":" << jstr(v.scenario) << ",\"tag\":" << jstr(v.tag) << ",\"msg\":" << jstr(v.msg) << ",\"deviations\":" << v.devs.size() << ",\"replay\":" << jstr(file) << "}";
		f = false;
	}
	js << "]}";
	if(!out.empty()) { std::ofstream o(out); o << js.str() << "\n"; }
	else printf("%s\n", js.str().c_str());
	return vs.empty() ? 0 : 1;
}
}
