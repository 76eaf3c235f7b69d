// Schedules: the real program on small projects, every interleaving of its threads (and of the recipe processes) up to
// a deviation bound; race detector on; deadlocks are violations; the oracles are those of the whole-program harness.
#include "harness/logoracle.h"

static World* sw;

struct Case { std::string name; Spec sp; std::map<std::string, Beh> beh; int workers{2}; Strs args; bool prebuilt{false}; std::string touch; std::string invalid, invalid2; std::string level; std::string select; };

static Src src(std::string p, Strs t, std::vector<Edge> e = {}) { Src s; s.path = p; s.targets = t; s.edges = e; return s; }
static Edge D(std::string r) { return {'D', r, "", {}}; }

static std::string digest(World& w, Run const& r, bool files)
{
	std::string s = std::to_string(r.exit_code);
	for(auto& c: r.compiled()) s += "|" + c;
	if(files) for(auto& f: w.snap()) s += "\n" + f.first + "=" + f.second;
	return s;
}

static void judge(World& w, Case const& c, Run const& r)
{
	if(!c.invalid.empty())
	{
		for(auto p: {"C10", "C21", "C03"})
		{
			expect(p, r.exit_code != 0 && r.compiles().empty(), "accepted", "a malformed file was ignored", w, &r);
			for(auto& f: {c.invalid, c.invalid2}) expect(p, r.err.find(f) != std::string::npos, "diagnostic", "the malformed file " + f + " is not named in a diagnostic", w, &r);
		}
		return;
	}
	auto m = makeModel(c.sp);
	if(c.prebuilt || !c.select.empty())
	{
		// exactly the tasks that need the touched file, or that the selected target needs
		std::multiset<std::string> want;
		std::set<std::string> bad;
		for(auto& b: c.beh) if(b.second.code || b.second.sig || b.second.noexec) bad.insert(b.first);
		for(auto& t: m.tasks())
		{
			bool in = c.prebuilt ? t == c.touch || m.closure(t).count(c.touch) : t == c.select || m.closure(c.select).count(t);
			for(auto& b: bad) if(m.closure(t).count(b)) in = false;
			if(in) want.insert(t);
		}
		auto got = r.compiled();
		checkOrder(w, m, r);
		for(auto& t: got) expect("C02", got.count(t) == 1, "twice", "the recipe for " + t + " was run more than once", w, &r);
		for(auto p: {"C01", "C02", "C03", "C21"})
		{
			// after a failure the tasks that do not depend on it may or may not be run
			std::string miss, extra;
			for(auto& t: want) if(!got.count(t) && (bad.empty() || bad.count(t))) miss += " " + t;
			for(auto& t: got) if(!want.count(t)) extra += " " + t;
			expect(p, miss.empty() && extra.empty(), "tasks", "tasks run differ from those that are needed: missing" + miss + " unneeded" + extra, w, &r);
			expect(p, (r.exit_code == 0) == bad.empty(), "status", "exit status " + std::to_string(r.exit_code), w, &r);
		}
		if(bad.empty() && c.prebuilt) for(auto p: {"C01", "C21"}) checkContents(p, w, m, r);
		return;
	}
	if(!c.level.empty()) { judgeLog(w, m, c.level, c.beh, {}, r); return; }
	judgeOutcome(w, m, c.beh, r);
}

static Spec smallSpec()
{
	Spec sp;
	auto full = stdConfig();
	J l = J::obj({{"x", full.at("source_file_info_loaders").at("x")}});
	sp.cfg = J::obj({{"dir_compiler", recipeCfg("mkdir.rcp")},
	                 {"source_file_info_loaders", l},
	                 {"source_tree_loader", J::obj({{"file_info_loaders", J::obj({{".x", "x"}})}, {"fullpath_input_filter", J::arr()}, {"input_filter", J::arr({"^\\.", "^__"})}, {"recursive", 1}})}});
	sp.recipes = {{"mkdir.rcp", "dir"}, {"x.rcp", "x"}};
	return sp;
}
static Case mk(std::string n, std::vector<Src> s) { Case c; c.name = n; c.sp = smallSpec(); c.sp.srcs = s; return c; }

static void add(Scens& v, Case c, int bound, uint64_t cap, bool scan)
{
	Scenario s;
	s.name = c.name + "/w" + std::to_string(c.workers) + (scan ? "/scan" : "");
	s.bound = bound;
	s.max_execs = cap;
	s.opt.race_detect = true;
	s.opt.coarse = active_prop == "C21" || active_prop == "C19" ? 1 : 2;
	s.opt.free_np = false;
	s.opt.nprocs = c.workers;
	s.timeout_s = 60;
	s.setup = [c, scan]() {
		sw = new World;
		materialise(*sw, c.sp);
		if(c.prebuilt)
		{
			auto m = makeModel(c.sp);
			for(auto& x: m.n) if(x.second.dir) for(auto& t: x.second.targets) sw->makeDirs(sw->abs(t.first));
			Contents q(m, *sw);
			for(auto& x: m.topo()) if(!m.n[x].dir) for(auto& t: m.n[x].targets) sw->put(t.first, q.of(t.first));
			sw->touch(c.touch);
		}
		ctx = new Ctx;
		ctx->w = sw;
		if(chdir(sw->dir.c_str())) _exit(9);
		redirect();
	};
	s.race_is_violation = active_prop == "C21";
	s.body = [c, scan]() {
		if(scan) mc::setExplore(true);
		else mc::setExploreTrigger("Loaded source tree");
		Plan plan = [c](Inv const& i) { Beh b; if(i.mode() == "compile") { auto k = c.beh.find(norm(i.src())); if(k != c.beh.end()) b = k->second; } return b; };
		Strs a = c.args;
		a.push_back("--build-id=" + std::string(64, '5'));
		a.push_back("--num-workers=" + std::to_string(c.workers));
		Run r = execMain(*sw, a, plan);
		mc::setExplore(false);
		judge(*sw, c, r);
		mc::finish(fnv(digest(*sw, r, c.beh.empty())));
	};
	v.push_back(s);
}

static std::vector<Case> dagCases()
{
	std::vector<Case> v;
	auto d = [](int i) { return D(kNames[i] + ".t"); };
	auto n = [&](std::string name, std::vector<std::vector<int>> deps) {
		std::vector<Src> s;
		for(size_t i = 0; i < deps.size(); ++i) { std::vector<Edge> e; for(int j: deps[i]) e.push_back(d(j)); s.push_back(src(kNames[i] + ".x", {kNames[i] + ".t"}, e)); }
		v.push_back(mk(name, s));
	};
	n("one", {{}});
	n("two", {{}, {}});
	n("chain2", {{}, {0}});
	n("rchain2", {{1}, {}});
	n("three", {{}, {}, {}});
	n("chain3", {{}, {0}, {1}});
	n("rchain3", {{1}, {2}, {}});
	n("fork3", {{}, {0}, {0}});
	n("join3", {{}, {}, {0, 1}});
	n("rjoin3", {{1, 2}, {}, {}});
	n("tri3", {{}, {0}, {0, 1}});
	n("pair+1", {{}, {0}, {}});
	n("diamond4", {{}, {0}, {0}, {1, 2}});
	return v;
}

static Beh failing(int code, int sig, int noexec) { Beh b; b.code = code; b.sig = sig; b.noexec = noexec; b.write = 0; b.err = "E-MARK\n"; return b; }

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		bool ok = g == "C01" || g == "C02" || g == "C21";
		bool fail = g == "C02" || g == "C03" || g == "C21";
		if(ok)
			for(auto& c0: dagCases())
				for(int w = 1; w <= 3; ++w)
				{
					Case c = c0;
					c.workers = w;
					size_t n = c.sp.srcs.size();
					int bound = thorough() ? (n <= 2 ? 4 : n == 3 ? 3 : 2) : w == 2 && g == "C01" ? 2 : n <= 2 ? 2 : 1;
					add(v, c, bound, 0, false);
				}
		// forced, incremental and selected builds
		if(ok || g == "C03")
			for(auto& c0: dagCases())
				for(int w = 1; w <= 3; ++w)
				{
					size_t n = c0.sp.srcs.size();
					if(!thorough() && (w == 3 || (w == 1 && n > 2))) continue;
					int bound = thorough() ? (n <= 2 ? 3 : 2) : n <= 2 ? 2 : 1;
					Case c = c0;
					c.workers = w;
					c.name = c0.name + "-force";
					c.args = {"--force-rebuild"};
					if(ok) add(v, c, bound, 0, false);
					for(size_t i = 0; i < n; ++i)
					{
						Case u = c0;
						u.workers = w;
						u.name = c0.name + "-touch" + kNames[i];
						u.prebuilt = true;
						u.touch = kNames[i] + ".x";
						if(ok) add(v, u, bound, 0, false);
						if(fail)
						{
							u.name += "-fail";
							u.beh[u.touch] = failing(1, 0, 0);
							add(v, u, bound, 0, false);
						}
						Case s = c0;
						s.workers = w;
						s.name = c0.name + "-select" + kNames[i];
						s.select = kNames[i] + ".x";
						s.args = {"--targets=" + kNames[i] + ".t"};
						if(ok) add(v, s, bound, 0, false);
					}
				}
		if(fail)
			for(auto& c0: dagCases())
			{
				size_t n = c0.sp.srcs.size();
				for(unsigned mask = 1; mask < 1u << n; ++mask)
				{
					if(__builtin_popcount(mask) > 2) continue;
					for(int kind = 0; kind < 3; ++kind)
						for(int w = 1; w <= 3; ++w)
						{
							if(!thorough() && (w == 3 || (kind && n > 2) || (w == 1 && n > 3))) continue;
							Case c = c0;
							c.workers = w;
							for(size_t i = 0; i < n; ++i)
								if(mask >> i & 1) c.beh[kNames[i] + ".x"] = failing(kind == 0 ? 1 : 0, kind == 1 ? 9 : 0, kind == 2 ? EACCES : 0);
							c.name += "-fail" + std::to_string(mask) + "k" + std::to_string(kind);
							add(v, c, thorough() ? (n <= 2 ? 3 : 2) : n <= 2 && !kind ? 2 : 1, 0, false);
						}
				}
			}
		if(g == "C19")
			for(auto& c0: dagCases())
			{
				size_t n = c0.sp.srcs.size();
				if(n > 3) continue;
				for(int lv = 0; lv < 3; ++lv)
					for(unsigned f = 0; f <= n; ++f)
						for(int w = 2; w <= 3; ++w)
						{
							if(!thorough() && (w == 3) != (lv == 1) && n > 1) continue;
							Case c = c0;
							c.workers = w;
							c.level = lv == 0 ? "source_file_info" : lv == 1 ? "compilation_command" : "errors";
							c.args = {"--log-level=" + c.level};
							for(size_t i = 0; i < n; ++i)
							{
								Beh b;
								b.code = f == i + 1;
								b.out = kNames[i] + "-one\n" + kNames[i] + "-two\n";
								b.err = "E-" + kNames[i] + "\n";
								c.beh[kNames[i] + ".x"] = b;
							}
							c.name += "-" + c.level + "-f" + std::to_string(f);
							add(v, c, thorough() ? 2 : n <= 2 ? 2 : 1, 0, false);
						}
			}
		if(g == "C21" || g == "C10")
		{
			Case c = mk("scan", {src("a.x", {"a.t"}), src("d/b.x", {"b.t"}, {D("a.t")}), src("d/e/c.x", {"c.t"})});
			for(int w = 1; w <= 3; ++w)
			{
				c.workers = w;
				add(v, c, thorough() ? 2 : 1, 0, true);
			}
			{
				Case o = mk("scansmall", {src("a.x", {"a.t"}), src("d/b.x", {"b.t"}, {D("a.t")})});
				o.workers = 2;
				add(v, o, thorough() ? 3 : 2, 0, true);
			}
			{
				// files with compilers of their own: recipes are looked up by the scanning threads
				auto own = [](Src s, std::string r) { s.compiler = J::obj({{"recipe", r}, {"config", J::obj()}}); return s; };
				Case o = mk("scanown", {own(src("a.x", {"a.t"}), "y.rcp"), own(src("b.x", {"b.t"}), "z.rcp"), own(src("c.x", {"c.t"}), "y.rcp")});
				o.sp.recipes["y.rcp"] = "y";
				o.sp.recipes["z.rcp"] = "z";
				for(int w = 2; w <= 3; ++w)
				{
					o.workers = w;
					add(v, o, thorough() ? 2 : 1, 0, true);
				}
			}
			c = mk("scanbad", {src("a.x", {"a.t"}), src("d/b.x", {"b.t"}), src("d/e/c.x", {"c.t"})});
			c.sp.plain["d/bad.x"] = "#@{\"target\":\n";
			c.invalid = "d/bad.x";
			for(int w = 1; w <= 3; ++w)
			{
				c.workers = w;
				add(v, c, thorough() ? 2 : 1, 0, true);
			}
			// two of them, found at the same time
			c = mk("scanbad2", {src("a.x", {"a.t"}), src("b.x", {"b.t"})});
			c.sp.plain["d/bad.x"] = "#@{\"target\":\n";
			c.sp.plain["bad2.x"] = "#@{\"target\":\n";
			c.invalid = "d/bad.x";
			c.invalid2 = "bad2.x";
			for(int w = 2; w <= 3; ++w)
			{
				c.workers = w;
				add(v, c, thorough() ? 2 : 1, 0, true);
			}
		}
		return v;
	});
}
