// Histories: every sequence of edits and builds up to a bound, on a set of project shapes; each step runs the real
// maike and compares the set of recipes run (staleness model) and the content of every target (clean-build model).
#include "harness/common.h"

struct FileImg { std::string content; uint64_t mtime; mode_t mode; bool dir; };
using Img = std::map<std::string, FileImg>;
static Img save(World& w)
{
	Img r;
	for(auto& e: fs::recursive_directory_iterator(w.dir))
	{
		struct stat st;
		::lstat(e.path().c_str(), &st);
		auto rel = e.path().lexically_relative(w.dir).string();
		bool d = S_ISDIR(st.st_mode);
		r[rel] = FileImg{d ? "" : slurp(e.path().string()), World::stampOf(st), st.st_mode & 07777, d};
	}
	struct stat st;
	::lstat(w.dir.c_str(), &st);
	r["."] = FileImg{"", World::stampOf(st), st.st_mode & 07777, true};
	return r;
}
static void restore(World& w, Img const& img)
{
	// remove what is not in the image, rewrite what differs
	std::vector<std::string> del;
	for(auto& e: fs::recursive_directory_iterator(w.dir)) { auto rel = e.path().lexically_relative(w.dir).string(); if(!img.count(rel)) del.push_back(rel); }
	std::reverse(del.begin(), del.end());
	for(auto& d: del) { std::error_code ec; fs::remove(w.abs(d), ec); }
	for(auto& f: img)
	{
		auto a = w.abs(f.first);
		if(f.second.dir) { ::mkdir(a.c_str(), 0755); continue; }
		struct stat st;
		bool same = ::lstat(a.c_str(), &st) == 0 && World::stampOf(st) == f.second.mtime && (size_t)st.st_size == f.second.content.size() && slurp(a) == f.second.content;
		if(!same)
		{
			int fd = ::open(a.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, f.second.mode);
			(void)!::write(fd, f.second.content.data(), f.second.content.size());
			fchmod(fd, f.second.mode);
			::close(fd);
			w.stamp(f.first, f.second.mtime);
		}
	}
	for(auto& f: img) if(f.second.dir) w.stamp(f.first, f.second.mtime);
}

struct Hist
{
	Spec sp;
	std::map<std::string, std::map<std::string, uint64_t>> rec;    // task -> stamps at its last successful run
	std::set<std::string> bad;                                     // tasks that failed and may have damaged their targets
	std::set<std::string> unsure;                                  // tasks that failed without writing
	bool broken{false};                                            // last build stopped or failed
	std::string log;
};

static uint64_t mt(World& w, std::string const& p) { struct stat st; return ::stat(w.abs(p).c_str(), &st) == 0 ? World::stampOf(st) : 0; }

static std::map<std::string, uint64_t> stamps(World& w, Model& m, std::string const& t)
{
	std::map<std::string, uint64_t> r;
	if(m.n[t].dir) return r;
	r[t] = mt(w, t);
	for(auto& d: m.closure(t)) { auto& x = m.n[d]; if(x.ext || x.dir) continue; struct stat st; if(::stat(w.abs(d).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) continue; r[d] = mt(w, d); }
	return r;
}

// the tasks that must be run by the next (successful) build, and those that may be run
struct Expect { std::set<std::string> must, may; };
static Expect expected(World& w, Hist& h, Model& m)
{
	Expect e;
	std::map<std::string, std::string> owner;
	for(auto& x: m.n) for(auto& t: x.second.targets) owner[t.first] = x.first;
	for(auto& t: m.topo())
	{
		auto& x = m.n[t];
		bool missing = false;
		for(auto& g: x.targets) if(!w.exists(g.first)) missing = true;
		if(x.dir) { if(missing) e.must.insert(t); continue; }
		bool run = missing || x.always || h.bad.count(t) || !h.rec.count(t) || h.rec[t] != stamps(w, m, t);
		bool maybe = h.unsure.count(t);
		for(auto& d: m.closure(t))
		{
			auto o = owner.find(d);
			if(o == owner.end() || m.n[o->second].dir) continue;
			if(e.must.count(o->second)) run = true;
			if(e.may.count(o->second)) maybe = true;
		}
		if(run) e.must.insert(t);
		else if(maybe) e.may.insert(t);
	}
	return e;
}

struct Fault { std::string task; Beh beh; int die_at{-1}; bool die_before{false}; };

static void hfail(char const* prop, char const* tag, std::string const& msg, World& w, Hist& h, Run& r) { expect(prop, false, tag, msg + "\nhistory: " + h.log, w, &r); }

static Run runBuild(World& w, Hist& h, Fault const* f, Strs args = {}, int workers = 2)
{
	auto m = makeModel(h.sp);
	if(m.cyclic || m.unresolved || m.dup) mc::fail("harness", "history leads to an invalid project: " + h.log);
	auto ex = expected(w, h, m);
	auto files_before = w.snap(true);
	Plan plan;
	auto cnt = std::make_shared<int>(0);
	if(f) plan = [f, cnt](Inv const& i) { Beh b; if(i.mode() == "compile" && i.t0 && norm(i.src()) == f->task) b = f->beh; if(i.mode() == "compile" && !i.t0 && norm(i.src()) == f->task) b = f->beh; if(i.mode() == "compile" && i.t0 && (*cnt)++ == f->die_at) { b.die_build = true; b.write = f->die_before ? 0 : 2; } return b; };
	BuildOpt o;
	o.workers = workers;
	Run r = build(w, args, plan, o);
	h.log += f ? (f->die_at >= 0 ? " build!die" + std::to_string(f->die_at) : " build!" + f->task) : " build";
	bool died = r.verdict == mc::V_OK && r.exit_code == -1;
	if(!ended(r)) { expect(active_prop.c_str(), false, "not-ended", "build did not end: " + r.msg + "\nhistory: " + h.log, w, &r); return r; }
	bool forced = std::find(args.begin(), args.end(), "--force-rebuild") != args.end();
	if(!f)
	{
		if(r.exit_code != 0) { for(auto p: {"C04", "C05", "C25"}) hfail(p, "failed-build", "a build in which every recipe succeeds failed", w, h, r); }
		auto got = r.compiled();
		std::set<std::string> gs(got.begin(), got.end());
		if(forced) for(auto& t: m.tasks()) ex.must.insert(t);
		std::string miss, extra;
		for(auto& t: ex.must) if(!gs.count(t)) miss += " " + t;
		for(auto& t: gs) if(!ex.must.count(t) && !ex.may.count(t)) extra += " " + t;
		if(!extra.empty()) hfail("C05", "unneeded", "recipes were run for up-to-date files:" + extra, w, h, r);
		// a task marked to be rebuilt always, or whose target is missing, must be run
		for(auto& t: ex.must) if(!gs.count(t) && m.n[t].always) hfail("C05", "always", t + " is to be rebuilt always but was not", w, h, r);
		if(!miss.empty()) { hfail("C04", "stale", "out-of-date files were not rebuilt:" + miss, w, h, r); if(h.broken) hfail("C25", "stale", "files left out of date by the failed build were not rebuilt:" + miss, w, h, r); }
		Contents c(m, w);
		for(auto& x: m.n)
			if(x.second.gen)
			{
				auto want = c.of(x.first), have = depContent(w, x.first);
				if(want != have) { hfail("C04", "content", "target " + x.first + " is\n" + have + "but a clean build gives\n" + want, w, h, r); if(h.broken) hfail("C25", "content", "target " + x.first + " is\n" + have + "but a clean build gives\n" + want, w, h, r); }
			}
		// sources are never modified by maike
		h.broken = false;
	}
	else h.broken = true;
	for(auto& i: r.invs)
	{
		if(i.mode() != "compile") continue;
		auto t = norm(i.src());
		if(i.ended && i.code == 0 && i.sig == 0) { h.rec[t] = stamps(w, m, t); h.bad.erase(t); h.unsure.erase(t); }
	}
	if(died)
	{
		// results were not recorded by the killed build: everything that can be told from the disk may have been built
		for(auto& t: m.tasks()) if(!m.n[t].dir) { auto s = stamps(w, m, t); bool fresh = !m.n[t].targets.empty(); for(auto& g: m.n[t].targets) for(auto& q: s) if(!(mt(w, g.first) > q.second)) fresh = false; if(fresh) h.rec[t] = s; }
	}
	else
		for(auto& i: r.invs)
		{
			if(i.mode() != "compile") continue;
			auto t = norm(i.src());
			if(i.code || i.sig || !i.ended) { if(f && f->beh.write) h.bad.insert(t); else h.unsure.insert(t); }
		}
	return r;
}

struct Op { std::string name; std::function<void(World&, Spec&)> go; };
struct Shape { std::string name; Spec sp; std::vector<Op> ops; };

static Src* find(Spec& sp, std::string const& p) { for(auto& s: sp.srcs) if(s.path == p) return &s; return nullptr; }
static void rewrite(World& w, Spec& sp, std::string const& p) { auto s = find(sp, p); if(s && s->present) w.put(p, emit(*s)); }
static Op opEdit(std::string const& p) { return {"edit(" + p + ")", [p](World& w, Spec& sp) { auto s = find(sp, p); if(!s || !s->present) return; ++s->ver; w.put(p, emit(*s)); }}; }
static Op opTouch(std::string const& p) { return {"touch(" + p + ")", [p](World& w, Spec& sp) { if(w.exists(p)) w.touch(p); }}; }
static Op opRm(std::string const& p) { return {"rm(" + p + ")", [p](World& w, Spec& sp) { if(w.exists(p)) w.rm(p); }}; }
static Op opEdges(std::string const& p, std::vector<Edge> alt) { return {"redepend(" + p + ")", [p, alt](World& w, Spec& sp) { auto s = find(sp, p); if(!s || !s->present) return; s->edges = alt; w.put(p, emit(*s)); }}; }
static Op opRecipe(std::string const& p) { return {"recipe(" + p + ")", [p](World& w, Spec& sp) { sp.recipes[p] += "!"; w.put(p, sp.recipes[p], true); }}; }
static Op opTargets(std::string const& p, Strs t) { return {"retarget(" + p + ")", [p, t](World& w, Spec& sp) { auto s = find(sp, p); if(!s || !s->present) return; s->targets = t; w.put(p, emit(*s)); }}; }
static Op opAdd(Src s0) { return {"add(" + s0.path + ")", [s0](World& w, Spec& sp) { auto s = find(sp, s0.path); if(!s) { sp.srcs.push_back(s0); s = &sp.srcs.back(); } if(!s->present || !w.exists(s0.path)) { s->present = true; w.put(s0.path, emit(*s)); } }}; }
static Op opDel(std::string const& p) { return {"del(" + p + ")", [p](World& w, Spec& sp) { auto s = find(sp, p); if(s && s->present) { s->present = false; w.rm(p); } }}; }
static Src src(std::string p, Strs t, std::vector<Edge> e = {}) { Src s; s.path = p; s.targets = t; s.edges = e; return s; }
static Edge D(std::string r) { return {'D', r, "", {}}; }
static Edge P(std::string r) { return {'D', r, "project", {}}; }
static Edge X(std::string r) { return {'X', r, "", {}}; }
static Edge T(std::string r) { return {'T', r, "generated", {}}; }
static Edge I(std::string r) { return {'I', r, "", {}}; }

static std::vector<Shape> shapes()
{
	std::vector<Shape> v;
	auto mk = [&v](std::string n, std::vector<Src> s, std::vector<Op> ops) { Spec sp = baseSpec(); sp.srcs = s; v.push_back({n, sp, ops}); };
	mk("chain", {src("a.x", {"a.t"}), src("b.x", {"b.t"}, {D("a.t")}), src("c.x", {"c.t"}, {D("b.t")})},
	   {opEdit("a.x"), opTouch("b.x"), opEdit("c.x"), opRm("__targets/a.t"), opRm("__targets/b.t"), opRm("__targets/c.t"), opRecipe("x.rcp"), opEdges("c.x", {D("a.t")}), opEdges("b.x", {})});
	mk("header", {src("a.x", {"a.t"}, {P("h.x")}), src("b.x", {"b.t"}, {P("g.x")}), src("g.x", {}, {P("h.x")}), src("h.x", {})},
	   {opEdit("h.x"), opEdit("g.x"), opTouch("a.x"), opRm("__targets/a.t"), opRm("__targets/b.t"), opEdges("g.x", {}), opEdges("a.x", {P("g.x")}), opRecipe("x.rcp"), opRecipe("mkdir.rcp")});
	mk("impl", {src("a.x", {"a.t"}, {P("h.x")}), src("h.x", {}, {X("b.t")}), src("b.x", {"b.t"}), src("z.lib", {"z.t"}, {T("a.t")})},
	   {opEdit("a.x"), opEdit("h.x"), opEdit("b.x"), opRm("__targets/b.t"), opRm("__targets/z.t"), opTouch("z.lib"), opEdges("h.x", {}), opEdges("z.lib", {T("b.t")}), opRecipe("l.rcp")});
	mk("multi", {src("a.x", {"a.t", "a2.t"}), src("b.x", {"b.t"}, {D("a.t")}), src("c.x", {"c.t"}, {D("a2.t"), T("b.t")}), src("e.x", {"e.t"}, {D("c.t")})},
	   {opEdit("a.x"), opRm("__targets/a.t"), opRm("__targets/a2.t"), opRm("__targets/c.t"), opTouch("b.x"), opTargets("a.x", {"a2.t", "a.t"}), opTargets("b.x", {"b.t", "b2.t"}), opEdges("c.x", {D("b.t")}), opEdit("e.x")});
	mk("dirs", {src("a.x", {"a.t"}, {D("d/e/c.t")}), src("d/b.x", {"b.t"}), src("d/e/c.x", {"c.t"}, {D("./../b.t")})},
	   {opEdit("a.x"), opEdit("d/b.x"), opTouch("d/e/c.x"), opRm("__targets/d/b.t"), opRm("__targets/d/e/c.t"), opAdd(src("d/f/n.x", {"n.t"}, {D("d/b.t")})), opAdd(src("n2.x", {"n2.t"}, {D("a.t")})), opEdges("a.x", {D("d/b.t")}), opRecipe("mkdir.rcp")});
	mk("addel", {src("a.x", {"a.t"}), src("b.x", {"b.t"}, {D("a.t")}), src("h.x", {})},
	   {opEdit("a.x"), opAdd(src("n.x", {"n.t"}, {D("a.t")})), opDel("n.x"), opEdges("b.x", {P("h.x")}), opEdges("b.x", {D("a.t")}), opEdit("h.x"), opDel("b.x"), opAdd(src("b.x", {"b.t"}, {D("a.t")})), opRm("__targets/b.t")});
	mk("cxx", {src("a.cc", {"a.o"}, {I("h.hh")}), src("h.hh", {}, {I("g.hh"), X("b.o")}), src("g.hh", {}), src("b.cc", {"b.o"}), src("t.test.cc", {"t.test"}, {I("h.hh")})},
	   {opEdit("a.cc"), opEdit("h.hh"), opEdit("g.hh"), opEdit("b.cc"), opTouch("t.test.cc"), opRm("__targets/b.o"), opRm("__targets/t.test"), opEdges("h.hh", {X("b.o")}), opRecipe("c.rcp")});
	{
		auto g = src("g.rule", {"x.gen.hh"});
		mk("gen", {g, src("a.cc", {"a.o"}, {I("x.gen.hh")}), src("b.cc", {"b.o"}, {D("a.o")})},
		   {opEdit("g.rule"), opEdit("a.cc"), opTouch("b.cc"), opRm("__targets/x.gen.hh"), opRm("__targets/a.o"), opRecipe("m.rcp"), opEdges("a.cc", {}), opEdges("b.cc", {})});
		// includes matching generated_includes are generated files
		for(auto& s: v.back().sp.srcs) for(auto& e: s.edges) if(e.kind == 'I') e = Edge{'I', e.ref, "", {}};
	}
	{
		auto a = src("a.x", {"a.t"});
		a.rebuild = 1;
		auto b = src("b.x", {"b.t"}, {D("a.t")});
		auto c = src("c.x", {"c.t"});
		c.compiler = J::obj({{"recipe", "y.rcp"}, {"config", J::obj({{"q", "own"}})}});
		auto e = src("e.x", {"e.t"}, {D("c.t")});
		e.rebuild = 0;
		e.compiler = J::obj({{"config", J::obj({{"q", "e"}})}});
		mk("always", {a, b, c, e}, {opEdit("a.x"), opTouch("b.x"), opEdit("c.x"), opRm("__targets/b.t"), opRm("__targets/a.t"), opRecipe("x.rcp"), opRecipe("y.rcp"), opTouch("e.x"), opRm("__targets/c.t")});
		v.back().sp.recipes["y.rcp"] = "y";
	}
	return v;
}

// -- exploration of all histories of `depth` operations; after each operation a build may or may not follow
static void dfs(World& w, Hist const& h, std::vector<Op> const& ops, int depth)
{
	if(depth == 0) return;
	auto img = save(w);
	auto clk = w.shm->clock;
	for(auto& op: ops)
	{
		restore(w, img);
		w.shm->clock = clk;
		Hist g = h;
		op.go(w, g.sp);
		g.log += " " + op.name;
		++mc::currentResult()->inner_states;
		auto img2 = save(w);
		auto clk2 = w.shm->clock;
		{
			Hist b = g;
			runBuild(w, b, nullptr);
			if(depth > 1) dfs(w, b, ops, depth - 1);
		}
		if(depth > 1)
		{
			restore(w, img2);
			w.shm->clock = clk2;
			// without a build in between: only continue with the later operations in both orders
			dfs(w, g, ops, depth - 1);
		}
	}
}

static void addHistories(Scens& v, int depth)
{
	auto sh = std::make_shared<std::vector<Shape>>(shapes());
	for(size_t k = 0; k < sh->size(); ++k)
		for(size_t f = 0; f < (*sh)[k].ops.size(); ++f)
		{
			Scenario s;
			s.name = "hist-" + (*sh)[k].name + ":" + (*sh)[k].ops[f].name;
			s.plain = true;
			s.timeout_s = 1800;
			s.body = [sh, k, f, depth]() {
				World w;
				auto& S = (*sh)[k];
				Hist h;
				h.sp = S.sp;
				materialise(w, h.sp);
				auto r0 = runBuild(w, h, nullptr);
				sample(describe(w) + r0.dump());
				auto r1 = runBuild(w, h, nullptr);
				auto m = makeModel(h.sp);
				for(int q = 0; q < 2; ++q)
				{
					// first operation fixed by the scenario
					auto img = save(w);
					Hist g = h;
					S.ops[f].go(w, g.sp);
					g.log += " " + S.ops[f].name;
					if(q == 0) { runBuild(w, g, nullptr); runBuild(w, g, nullptr); }
					dfs(w, g, S.ops, depth - 1);
					restore(w, img);
				}
				mc::finish(k);
			};
			v.push_back(s);
		}
}

// -- every single change on every small acyclic graph
static void addGraphChanges(Scens& v)
{
	for(auto& f: graphFamilies(true))
		batch(v, "chg-" + f.name, f.size, f.per, [f](World& w, size_t i) {
			auto sp = f.make(i);
			auto m = makeModel(sp);
			--mc::currentResult()->inner_states;
			if(m.cyclic || m.unresolved || m.dup) return;
			materialise(w, sp);
			Hist h;
			h.sp = sp;
			runBuild(w, h, nullptr);
			runBuild(w, h, nullptr);
			auto img = save(w);
			auto clk = w.shm->clock;
			std::vector<Op> ops;
			for(auto& s: sp.srcs)
			{
				ops.push_back(opEdit(s.path));
				if(!s.targets.empty()) ops.push_back(opRm("__targets/" + (fs::path(s.path).parent_path() / s.targets[0]).string()));
			}
			for(auto& op: ops)
			{
				restore(w, img);
				w.shm->clock = clk;
				Hist g = h;
				op.go(w, g.sp);
				g.log += " " + op.name;
				++mc::currentResult()->inner_states;
				runBuild(w, g, nullptr);
				if(on("C05") || thorough()) runBuild(w, g, nullptr);
			}
		});
}

// -- failing and interrupted builds
static void addFaults(Scens& v)
{
	auto sh = std::make_shared<std::vector<Shape>>(shapes());
	for(size_t k = 0; k < sh->size(); ++k)
		for(size_t f = 0; f <= (*sh)[k].ops.size(); ++f)
		{
			Scenario s;
			s.name = "fault-" + (*sh)[k].name + ":" + (f ? (*sh)[k].ops[f - 1].name : std::string("clean"));
			s.plain = true;
			s.timeout_s = 1800;
			s.body = [sh, k, f]() {
				World w;
				auto& S = (*sh)[k];
				Hist h;
				h.sp = S.sp;
				materialise(w, h.sp);
				if(f)
				{
					runBuild(w, h, nullptr);
					S.ops[f - 1].go(w, h.sp);
					h.log += " " + S.ops[f - 1].name;
				}
				auto img = save(w);
				auto m = makeModel(h.sp);
				std::vector<Fault> faults;
				for(auto& t: m.tasks())
				{
					if(m.n[t].dir) { Fault x; x.task = t; x.beh.code = 1; x.beh.write = 0; faults.push_back(x); continue; }
					for(int wr = 0; wr < 3; ++wr)
					{
						Fault x;
						x.task = t;
						x.beh.write = wr;
						x.beh.code = 1;
						faults.push_back(x);
						x.beh.code = 0;
						x.beh.sig = 9;
						faults.push_back(x);
					}
					Fault x;
					x.task = t;
					x.beh.noexec = EACCES;
					x.beh.write = 0;
					faults.push_back(x);
				}
				size_t nt = m.tasks().size();
				for(size_t d = 0; d < nt; ++d) for(int b = 0; b < 2; ++b) { Fault x; x.die_at = d; x.die_before = b; faults.push_back(x); }
				for(auto& x: faults)
				{
					++mc::currentResult()->inner_states;
					restore(w, img);
					Hist g = h;
					auto rf = runBuild(w, g, &x);
					sample(describe(w) + rf.dump());
					// the failing build may or may not have reached the faulty task; the next build must repair all
					auto img3 = save(w);
					Hist gf = g;
					Hist g2 = g;
					runBuild(w, g2, nullptr);
					// variant: the recipe fails once more (same fault), then succeeds
					
					{
						restore(w, img3);
						runBuild(w, g, &x);
						runBuild(w, g, nullptr);
					}
					// variant: an edit between the failure and the repair
					for(size_t o = 0; o < S.ops.size(); ++o)
					{
						restore(w, img3);
						Hist g3 = gf;
						S.ops[o].go(w, g3.sp);
						g3.log += " " + S.ops[o].name;
						++mc::currentResult()->inner_states;
						runBuild(w, g3, nullptr);
					}
				}
				mc::finish(k);
			};
			v.push_back(s);
		}
}

// -- selected targets, dry runs, forced builds, listings
struct LogLine { std::string mark, path; bool ran; };
static std::vector<LogLine> logLines(std::string const& out)
{
	std::vector<LogLine> r;
	std::istringstream is(out);
	std::string l;
	while(std::getline(is, l))
	{
		if(l.rfind(" ... ", 0) == 0) continue;
		Strs f;
		size_t p = 0;
		while(true) { auto q = l.find(" | ", p); f.push_back(l.substr(p, q == std::string::npos ? q : q - p)); if(q == std::string::npos) break; p = q + 3; }
		if(f.size() < 5) continue;
		size_t n = f.size();
		r.push_back({f[n - 4], f[n - 3], f[n - 2] != "-"});
	}
	return r;
}
static std::set<std::string> directlyStale(World& w, Hist& h, Model& m)
{
	std::set<std::string> e;
	for(auto& t: m.tasks())
	{
		auto& x = m.n[t];
		bool missing = false;
		for(auto& g: x.targets) if(!w.exists(g.first)) missing = true;
		// a dependency that does not exist at the moment makes the file out of date only once it has been built
		bool changed = !h.rec.count(t);
		if(!changed) for(auto& q: stamps(w, m, t)) if(q.second && h.rec[t][q.first] != q.second) changed = true;
		if(missing || (!x.dir && (x.always || h.bad.count(t) || changed))) e.insert(t);
	}
	return e;
}
static std::set<std::string> selection(Model& m, Strs const& targets)
{
	std::set<std::string> r;
	for(auto& t: targets)
		for(auto& x: m.n)
			for(auto& g: x.second.targets)
				if(g.first == norm("__targets/" + t))
				{
					r.insert(x.first);
					for(auto& d: m.closure(x.first)) if(m.n[d].task()) r.insert(d);
				}
	return r;
}
static std::string join(std::set<std::string> const& s) { std::string r; for(auto& x: s) r += " " + x; return r; }
static std::string join(Strs const& s) { std::string r; for(auto& x: s) r += (r.empty() ? "" : ",") + x; return r; }

static void selectRun(World& w, Hist h, Strs const& targets, bool force)
{
	auto m = makeModel(h.sp);
	auto ex = expected(w, h, m);
	auto sel = selection(m, targets);
	std::multiset<std::string> want;
	for(auto& t: sel) if(force || ex.must.count(t)) want.insert(t);
	BuildOpt o;
	o.workers = 2;
	Strs args{"--targets=" + join(targets)};
	if(force) args.push_back("--force-rebuild");
	Run r = build(w, args, {}, o);
	h.log += " build[" + join(targets) + (force ? ",force" : "") + "]";
	char const* P = force ? "C18" : "C08";
	if(!ended(r)) { expect(P, false, "not-ended", "build did not end: " + r.msg + "\nhistory: " + h.log, w, &r); return; }
	for(auto p: {"C08", "C18"})
	{
		if(r.exit_code) hfail(p, "status", "a valid selection of targets was refused", w, h, r);
		if(r.compiled() != want) hfail(p, "selection", "recipes run differ from what the selected targets need:" + cdiff(want, r.compiled()), w, h, r);
	}
	Contents c(m, w);
	for(auto& t: sel)
		for(auto& g: m.n[t].targets)
			for(auto p: {"C08", "C18"})
				if(c.of(g.first) != depContent(w, g.first)) hfail(p, "content", "target " + g.first + " is not up to date after the build", w, h, r);
	std::map<std::string, Inv const*> at;
	for(auto q: r.compiles()) at[norm(q->src())] = q;
	for(auto q: r.compiles())
		for(auto& d: m.closure(norm(q->src())))
		{
			auto i = at.find(d);
			if(i != at.end() && i->second != q && !(i->second->t1 < q->t0)) for(auto p: {"C08", "C18"}) hfail(p, "order", norm(q->src()) + " was built before " + d, w, h, r);
		}
}
static void forceRun(World& w, Hist h, int workers)
{
	auto m = makeModel(h.sp);
	BuildOpt o;
	o.workers = workers;
	Run r = build(w, {"--force-rebuild"}, {}, o);
	h.log += " build[force]";
	if(!ended(r)) { expect("C18", false, "not-ended", "build did not end: " + r.msg + "\nhistory: " + h.log, w, &r); return; }
	if(r.exit_code) hfail("C18", "status", "forced build failed", w, h, r);
	if(r.compiled() != taskSet(m)) hfail("C18", "forced", "a forced build must run every task once:" + cdiff(taskSet(m), r.compiled()), w, h, r);
	std::map<std::string, Inv const*> at;
	for(auto q: r.compiles()) at[norm(q->src())] = q;
	for(auto q: r.compiles())
		for(auto& d: m.closure(norm(q->src())))
		{
			auto i = at.find(d);
			if(i != at.end() && i->second != q && !(i->second->t1 < q->t0)) hfail("C18", "forced-order", norm(q->src()) + " was built before " + d, w, h, r);
		}
	Contents c(m, w);
	for(auto& x: m.n) if(x.second.gen && c.of(x.first) != depContent(w, x.first)) hfail("C18", "content", "target " + x.first + " is wrong after a forced build", w, h, r);
}
static void dryRun(World& w, Hist h, Strs args, std::set<std::string> const* only)
{
	auto m = makeModel(h.sp);
	auto want = directlyStale(w, h, m), may = expected(w, h, m).must;
	bool force = std::find(args.begin(), args.end(), "--force-rebuild") != args.end();
	if(force) for(auto& t: m.tasks()) want.insert(t);
	if(only) { std::set<std::string> k; for(auto& t: want) if(only->count(t)) k.insert(t); want = k; }
	auto before = w.snap(true);
	BuildOpt o;
	o.workers = 2;
	args.push_back("--dry-run");
	Run r = build(w, args, {}, o);
	h.log += " build[" + join(args) + "]";
	if(!ended(r)) { expect("C18", false, "not-ended", "dry run did not end: " + r.msg + "\nhistory: " + h.log, w, &r); return; }
	if(r.exit_code) hfail("C18", "status", "dry run failed", w, h, r);
	if(!r.compiles().empty()) hfail("C18", "dry-run", "a dry run started a compilation", w, h, r);
	if(w.snap(true) != before) hfail("C18", "changed", "a dry run changed files", w, h, r);
	std::set<std::string> got;
	for(auto& l: logLines(r.out)) if(l.ran) got.insert(norm(l.path));
	bool good = true;
	for(auto& t: want) if(!got.count(t)) good = false;
	for(auto& t: got) if(!want.count(t) && !may.count(t)) good = false;
	if(!good) hfail("C18", "report", "a dry run must report" + join(want) + " but reports" + join(got), w, h, r);
}
static void listRun(World& w, Hist h, Strs args)
{
	auto before = w.snap(true);
	BuildOpt o;
	o.workers = 0;
	Run r = build(w, args, {}, o);
	h.log += " run[" + join(args) + "]";
	if(!ended(r)) { expect("C18", false, "not-ended", "listing did not end: " + r.msg + "\nhistory: " + h.log, w, &r); return; }
	if(r.exit_code) hfail("C18", "status", "listing failed", w, h, r);
	if(!r.compiles().empty()) hfail("C18", "listing", "listing started a compilation", w, h, r);
	if(w.snap(true) != before) hfail("C18", "changed", "listing changed files", w, h, r);
	if(r.out.empty()) hfail("C18", "silent", "listing prints nothing", w, h, r);
}

static std::vector<Strs> subsets(Spec const& sp)
{
	Strs all;
	for(auto& s: sp.srcs) for(auto& t: s.targets) all.push_back((fs::path(s.path).parent_path() / t).string());
	std::vector<Strs> r;
	for(auto& a: all) r.push_back({a});
	for(size_t i = 0; i < all.size(); ++i) for(size_t j = 0; j < all.size(); ++j) if(i < j || (i > j && all.size() < 4)) r.push_back({all[i], all[j]});
	r.push_back(all);
	if(!all.empty()) r.push_back({all[0], all[0]});
	return r;
}

static void selectCase(World& w, Spec const& sp, std::vector<Op> ops, bool wide)
{
	auto m = makeModel(sp);
	--mc::currentResult()->inner_states;
	if(m.cyclic || m.unresolved || m.dup) return;
	auto subs = subsets(sp);
	auto each = [&](Hist const& h) {
		auto img = save(w);
		auto clk = w.shm->clock;
		auto again = [&]() { restore(w, img); w.shm->clock = clk; ++mc::currentResult()->inner_states; };
		if(on("C08"))
			for(auto& s: subs) { again(); selectRun(w, h, s, false); }
		if(on("C18"))
		{
			again();
			dryRun(w, h, {}, nullptr);
			again();
			forceRun(w, h, 2);
			if(wide)
			{
				again();
				dryRun(w, h, {"--force-rebuild"}, nullptr);
				again();
				dryRun(w, h, {"--log-level=compilation_command"}, nullptr);
				for(auto& s: subs) { auto sel = selection(m, s); again(); dryRun(w, h, {"--targets=" + join(s)}, &sel); again(); selectRun(w, h, s, true); }
				for(auto a: {"--list-targets", "--print-dep-graph", "--configdump", "--help", "--version", "--about"}) { again(); listRun(w, h, {a}); }
				again();
				listRun(w, h, {"--list-targets", "--force-rebuild"});
				again();
				listRun(w, h, {"--print-dep-graph", "--force-rebuild"});
			}
		}
		restore(w, img);
		w.shm->clock = clk;
	};
	materialise(w, sp);
	Hist h;
	h.sp = sp;
	each(h);
	if(on("C08"))
	{
		std::set<std::string> defined, bads{"nosuch.t", "a.x", "__targets/a.t", "a.t/x", "a", "a.t.t", "../a.x"};
		for(auto& x: m.n)
			for(auto& t: x.second.targets)
			{
				auto n = norm(fs::path(t.first).lexically_relative("__targets").string());
				defined.insert(n);
				if(x.second.dir) continue;
				bads.insert(fs::path(n).filename().string());
				bads.insert("d/" + n);
				bads.insert("x" + n);
				bads.insert(n.substr(0, n.size() - 1));
				bads.insert(n + "/x");
				bads.insert(x.first);
				if(auto c = n.find('/'); c != std::string::npos) bads.insert(n.substr(c + 1));
			}
		for(auto& bad: bads)
			if(!defined.count(norm(bad)))
			for(int k = 0; k < 3; ++k)
			{
				++mc::currentResult()->inner_states;
				Strs t{bad};
				if(k == 1) t = {subs[0][0], bad};
				if(k == 2) t = {bad, subs[0][0]};
				auto img = save(w);
				BuildOpt o;
				o.workers = 2;
				Run r = build(w, {"--targets=" + join(t)}, {}, o);
				expect("C08", ended(r) && r.exit_code != 0, "unknown", "the unknown target " + bad + " was accepted in --targets=" + join(t), w, &r);
				expect("C08", r.err.find(bad) != std::string::npos, "unknown-diagnostic", "the unknown target " + bad + " is not named in the diagnostic", w, &r);
				restore(w, img);
			}
	}
	runBuild(w, h, nullptr);
	each(h);
	auto img = save(w);
	auto clk = w.shm->clock;
	for(auto& op: ops)
	{
		restore(w, img);
		w.shm->clock = clk;
		Hist g = h;
		op.go(w, g.sp);
		g.log += " " + op.name;
		each(g);
	}
}

static void addSelections(Scens& v)
{
	auto sh = std::make_shared<std::vector<Shape>>(shapes());
	batch(v, "sel-shapes", sh->size(), 1, [sh](World& w, size_t i) { selectCase(w, (*sh)[i].sp, [&]() {
		std::vector<Op> o;
		for(auto& op: (*sh)[i].ops) if(op.name.rfind("edit", 0) == 0 || op.name.rfind("touch", 0) == 0 || op.name.rfind("rm", 0) == 0 || op.name.rfind("recipe", 0) == 0) o.push_back(op);
		return o; }(), true); });
	std::vector<Family> fam{famPairs("n3", 3, {0, 1, 2}, false, {"a.x", "b.x", "c.x"}), famPairs("n3x", 3, {0, 1, 4}, false, {"a.x", "b.x", "c.x"}), famPairs("n3dirs", 3, {0, 1, 2}, false, {"a.x", "d/b.x", "d/e/c.x"})};
	if(thorough()) { fam.push_back(famPairs("n3all", 3, {0, 1, 2, 3, 4}, false, {"a.x", "b.x", "c.x"})); fam.push_back(famPairs("n4D", 4, {0, 1}, false, {"a.x", "b.x", "c.x", "e.x"})); }
	for(auto& f: fam)
		batch(v, "sel-" + f.name, f.size, 10, [f](World& w, size_t i) {
			auto sp = f.make(i);
			std::vector<Op> ops;
			for(auto& s: sp.srcs)
			{
				ops.push_back(opEdit(s.path));
				ops.push_back(opRm("__targets/" + (fs::path(s.path).parent_path() / s.targets[0]).string()));
			}
			selectCase(w, sp, ops, thorough() || i % 16 == 0);
		});
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g == "C04" || g == "C05") { addHistories(v, thorough() ? 4 : 3); addGraphChanges(v); }
		if(g == "C25") addFaults(v);
		if(g == "C08" || g == "C18") addSelections(v);
		return v;
	});
}
