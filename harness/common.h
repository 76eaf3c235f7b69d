// Helpers shared by the whole-program harnesses: scenario batches, project families and oracles.
#pragma once
#include "harness/model.h"
using namespace wp;
using mc::Scenario;

using Scens = std::vector<Scenario>;
static std::string tier;
static bool thorough() { return tier == "thorough"; }

static void batch(Scens& v, std::string const& name, size_t n, size_t per, std::function<void(World&, size_t)> one)
{
	for(size_t a = 0; a < n; a += per)
	{
		Scenario s;
		s.name = name + ":" + std::to_string(a);
		s.plain = true;
		s.timeout_s = 600;
		size_t b = std::min(n, a + per);
		s.body = [=]() {
			World w;
			for(size_t i = a; i < b; ++i)
			{
				w.reset();
				++mc::currentResult()->inner_states;
				one(w, i);
			}
			mc::finish(b - a);
		};
		v.push_back(s);
	}
}

static std::map<std::string, std::string> stdRecipes() { return {{"mkdir.rcp", "dir"}, {"x.rcp", "x"}, {"c.rcp", "c"}, {"l.rcp", "l"}, {"m.rcp", "m"}}; }
static Spec baseSpec() { Spec s; s.cfg = stdConfig(); s.recipes = stdRecipes(); return s; }
static Strs const kNames{"a", "b", "c", "e"};

// extra attributes of a dependency
static std::map<std::string, std::string> edgeProps(size_t k)
{
	switch(k % 3)
	{
		case 1: return {{"rel", "implementation"}};
		case 2: return {{"kind", "a \"b\""}, {"rel", ""}, {"z", "\xc3\xa5"}};
	}
	return {};
}
// kinds of a pair: 0 none, 1 D (generated), 2 P (dependencies, project), 3 T, 4 X
static void addEdge(Spec& sp, int i, int j, int kind, std::string const& ext = ".x")
{
	auto& s = sp.srcs[i];
	auto& d = sp.srcs[j];
	auto tgt = [&]() { return d.targets.empty() ? d.path : (fs::path(d.path).parent_path() / d.targets[0]).string(); };
	auto pr = edgeProps(i * 2 + j + kind);
	switch(kind)
	{
		case 1: if(!d.targets.empty()) s.edges.push_back({'D', tgt(), "", pr}); break;
		case 2: s.edges.push_back({'D', d.path, "project", pr}); break;
		case 3: if(!d.targets.empty()) s.edges.push_back({'T', tgt(), "generated", pr}); break;
		case 4: if(!d.targets.empty()) s.edges.push_back({'X', tgt(), "", pr}); break;
	}
}
static std::vector<std::pair<int, int>> pairs(int n, bool self = false)
{
	std::vector<std::pair<int, int>> r;
	for(int i = 0; i < n; ++i) for(int j = 0; j < n; ++j) if(i != j || self) r.push_back({i, j});
	return r;
}
static size_t ipow(size_t b, size_t e) { size_t r = 1; while(e--) r *= b; return r; }

struct Family { std::string name; size_t size; std::function<Spec(size_t)> make; size_t per; };

static Family famPairs(std::string const& name, int n, std::vector<int> kinds, bool self, Strs paths, unsigned headers = 0)
{
	auto ps = pairs(n, self);
	size_t size = ipow(kinds.size(), ps.size());
	return {name, size, [=](size_t idx) {
		Spec sp = baseSpec();
		for(int i = 0; i < n; ++i)
		{
			Src s;
			s.path = paths[i];
			if(!(headers >> i & 1)) s.targets = {kNames[i] + ".t"};
			sp.srcs.push_back(s);
		}
		for(auto& p: ps) { addEdge(sp, p.first, p.second, kinds[idx % kinds.size()]); idx /= kinds.size(); }
		return sp;
	}, 100};
}

// lite: for uses with many runs per graph, in the quick tier
static std::vector<Family> graphFamilies(bool lite = false)
{
	lite = lite && !thorough();
	std::vector<Family> f;
	f.push_back(famPairs("n2self", 2, {0, 1, 2, 3, 4}, true, {"a.x", "b.x"}));
	f.push_back(famPairs("n3", 3, {0, 1, 2, 3, 4}, false, {"a.x", "b.x", "c.x"}));
	f.push_back(famPairs("n3hdr", 3, {0, 1, 2, 4}, false, {"a.x", "b.x", "c.x"}, 4));
	f.push_back(famPairs("n3dirs", 3, {0, 1, 2}, false, {"a.x", "d/b.x", "d/e/c.x"}));
	f.push_back(famPairs("n4D", 4, {0, 1}, false, {"a.x", "b.x", "c.x", "e.x"}));
	// a chain of nested directories; each level has no file, a file, or a file that needs the one above it
	int levels = lite ? 4 : 6;
	f.push_back({"deep", ipow(3, levels), [levels](size_t idx) {
		Spec sp = baseSpec();
		std::string d;
		std::string last;
		for(int i = 0; i < levels; ++i, idx /= 3)
		{
			if(i) d += std::string(1, "defgh"[i - 1]) + "/";
			auto k = idx % 3;
			if(!k) { sp.plain[d + "note"] = "n"; continue; }
			Src s;
			s.path = d + "s.x";
			s.targets = {"s.t"};
			if(k == 2 && !last.empty()) s.edges.push_back({'D', last, "", {}});
			sp.srcs.push_back(s);
			last = d + "s.t";
		}
		return sp;
	}, 10});
	// two C++ sources, two headers, a linked file: includes, implementations of headers, linked objects
	f.push_back({"cxx", lite ? 1u << 9 : 1u << 12, [lite](size_t idx) {
		// lite: one header is included by one source only and implemented by at most one
		if(lite) idx = (idx & 7) | (idx & 0x18) << 1 | (idx & 0x60) << 1 | (idx & 0x180) << 3;
		Spec sp = baseSpec();
		for(auto& n: Strs{"a.cc", "b.cc", "h.hh", "g.hh", "z.lib"}) { Src s; s.path = n; sp.srcs.push_back(s); }
		sp.srcs[0].targets = {"a.o"};
		sp.srcs[1].targets = {"b.o"};
		sp.srcs[4].targets = {"z.t"};
		int const inc[6][2] = {{0, 2}, {0, 3}, {1, 2}, {1, 3}, {2, 3}, {3, 2}};
		for(auto& e: inc) { if(idx & 1) sp.srcs[e[0]].edges.push_back({'I', sp.srcs[e[1]].path, "", {}}); idx >>= 1; }
		for(int h = 2; h < 4; ++h) for(int o = 0; o < 2; ++o) { if(idx & 1) sp.srcs[h].edges.push_back({'X', sp.srcs[o].targets[0], "", {}}); idx >>= 1; }
		for(int o = 0; o < 2; ++o) { if(idx & 1) sp.srcs[4].edges.push_back({'T', sp.srcs[o].targets[0], "generated", {}}); idx >>= 1; }
		return sp;
	}, 20});
	// kinds of files, own compilers, several targets, attributes of dependencies
	f.push_back({"attr", 2 * 2 * 4 * 3 * 3 * 4 * 2, [](size_t idx) {
		auto d = [&idx](size_t n) { auto r = idx % n; idx /= n; return r; };
		Spec sp = baseSpec();
		sp.recipes["y.rcp"] = "y";
		Src a, b, c;
		a.path = "a.x";
		a.targets = {"a.t"};
		bool two = d(2);
		if(two) a.targets.push_back("a.u");
		if(d(2)) a.style = b.style = 'a';
		auto comp = d(4);
		auto ext = Strs{".x", ".sh", ".rule"}[d(3)];
		auto props = edgeProps(d(3));
		auto kind = d(4);
		bool always = d(2);
		b.path = "b" + ext;
		b.targets = {"b.t", "b.u"};
		if(comp == 1) b.compiler = J::obj({{"config", J::obj({{"k", 2}, {"z", J::arr({"q", 1})}})}});
		if(comp == 2) b.compiler = J::obj({{"recipe", "y.rcp"}, {"config", J::obj()}});
		if(comp == 3) b.compiler = J::obj({{"recipe", "y.rcp"}, {"config", J::obj({{"k", 3}, {"y", J::obj({{"n", 1}})}})}});
		auto ref = two ? "a.u" : "a.t";
		if(kind == 0) b.edges.push_back({'D', ref, "", props});
		if(kind == 1) b.edges.push_back({'D', "a.x", "project", props});
		if(kind == 2) b.edges.push_back({'T', ref, "generated", props});
		if(kind == 3) b.edges.push_back({'X', ref, "", props});
		if(always) b.rebuild = 1;
		c.path = "c.x";
		c.targets = {"c.t"};
		c.edges = {{'D', "b.u", "", {{"rel", "last"}}}, {'D', "sysdep", "system", props}, {'D', "b.u", "", {{"rel", "last"}}}};
		sp.srcs = {a, b, c};
		return sp;
	}, 40});
	// references to files nobody provides, or that are provided as something else
	f.push_back({"missing", 8 * 7 * 3 * 3, [](size_t idx) {
		auto d = [&idx](size_t n) { auto r = idx % n; idx /= n; return r; };
		Spec sp = baseSpec();
		sp.plain["d/note"] = "n";
		sp.plain["note"] = "n";
		auto kind = d(8);
		auto what = d(7);
		auto props = edgeProps(d(3));
		auto place = d(3);
		std::string ref = Strs{"gone", "a.x", "a.t", "note", "d", "d/gone", "./gone.gen.hh"}[what];
		Src a, b, h, c;
		a.path = "a.x";
		a.targets = {"a.t"};
		b.path = kind >= 5 ? "b.cc" : "b.x";
		b.targets = {"b.t"};
		if(place > 0) b.edges.push_back({'D', "a.t", "", {}});
		switch(kind)
		{
			case 0: b.edges.push_back({'D', ref, "", props}); break;
			case 1: b.edges.push_back({'D', ref, "project", props}); break;
			case 2: b.edges.push_back({'T', ref, "generated", props}); break;
			case 3: b.edges.push_back({'X', ref, "", props}); break;
			case 4: b.edges.push_back({'D', "ext/" + norm(ref), what % 2 ? "system" : "pkg-config", props}); break;
			case 5: b.edges.push_back({'I', ref, "", {}}); break;
			case 6: b.edges.push_back({'I', "h.hh", "", {}}); h.edges.push_back({'X', ref, "", props}); break;
			case 7: b.edges.push_back({'I', "h.hh", "", {}}); h.edges.push_back({'D', ref, "", props}); break;
		}
		h.path = "h.hh";
		c.path = "c.x";
		c.targets = {"c.t"};
		if(place > 1) c.edges.push_back({'D', "b.t", "", {}});
		sp.srcs = {a, b, h, c};
		return sp;
	}, 30});
	if(thorough())
	{
		f.push_back(famPairs("n4P", 4, {0, 2}, false, {"a.x", "b.x", "c.x", "e.x"}));
		f.push_back(famPairs("n4X", 4, {0, 4}, false, {"a.x", "b.x", "c.x", "e.x"}));
		f.push_back(famPairs("n4T", 4, {0, 3}, false, {"a.x", "b.x", "c.x", "e.x"}));
		f.push_back(famPairs("n4Drev", 4, {0, 1}, false, {"e.x", "c.x", "b.x", "a.x"}));
		f.push_back(famPairs("n3hdr2", 3, {0, 1, 2, 4}, false, {"a.x", "b.x", "c.x"}, 6));
	}
	return f;
}

static std::string cdiff(std::multiset<std::string> const& want, std::multiset<std::string> const& got)
{
	std::string s;
	for(auto& x: want) if(got.count(x) < want.count(x)) s += " missing:" + x;
	for(auto& x: got) if(want.count(x) < got.count(x)) s += " unexpected:" + x;
	return s;
}
static std::multiset<std::string> taskSet(Model& m) { std::multiset<std::string> r; for(auto& t: m.tasks()) r.insert(t); return r; }

// combining two configurations, the later one last
static bool merge(J& a, J const& b)   // false: the two have values of different kinds for one key
{
	bool ok = true;
	for(auto& kv: b.o)
	{
		J* x = nullptr;
		for(auto& p: a.o) if(p.first == kv.first) x = &p.second;
		if(!x) { a.set(kv.first, kv.second); continue; }
		if(x->t != kv.second.t) { ok = false; continue; }
		if(x->t == J::Arr) for(auto& e: kv.second.a) x->a.push_back(e);
		else if(x->t == J::Obj) ok = merge(*x, kv.second) && ok;
		else *x = kv.second;
	}
	return ok;
}

// ---- oracles ------------------------------------------------------------
static void checkTermination(World& w, Run const& r) { expect("C02", ended(r), "termination", "the build did not end properly: " + r.tag + " " + r.msg, w, &r); }

static void checkOrder(World& w, Model& m, Run const& r)
{
	std::map<std::string, Inv const*> at;
	for(auto c: r.compiles()) at[norm(c->src())] = c;
	for(auto c: r.compiles())
	{
		auto s = norm(c->src());
		for(auto& d: m.closure(s))
		{
			auto i = at.find(d);
			if(i == at.end() || d == s) continue;
			expect("C01", i->second->ended && i->second->t1 < c->t0 && i->second->code == 0 && i->second->sig == 0, "order",
			       "the recipe for " + s + " was started before the recipe for " + d + ", on which it depends, had finished successfully", w, &r);
		}
		for(auto& d: m.closure(s))
			if(m.n[d].gen) expect("C01", w.exists(d) || !ended(r), "missing-dep", "dependency " + d + " of " + s + " does not exist after the build", w, &r);
	}
}

static void checkRefusal(World& w, Model& m, Run const& r)
{
	bool bad = m.cyclic || m.unresolved || m.dup;
	if(!ended(r)) { expect("C06", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	if(bad)
	{
		expect("C06", r.exit_code != 0, "accepted", std::string("a project with ") + (m.cyclic ? "cyclic" : "unresolvable") + " dependencies was accepted", w, &r);
		expect("C06", r.compiles().empty(), "built", "targets of a refused project were built", w, &r);
		expect("C06", !r.err.empty(), "no-diagnostic", "no diagnostic for a refused project", w, &r);
	}
	else
	{
		expect("C06", r.exit_code == 0, "refused", "a valid project was refused", w, &r);
		expect("C02", r.compiled() == taskSet(m), "tasks", "tasks run differ from the tasks of the project:" + cdiff(taskSet(m), r.compiled()), w, &r);
		expect("C03", r.exit_code == 0, "status", "no recipe failed but maike exits with status " + std::to_string(r.exit_code), w, &r);
	}
}

static std::string originOf(Model& m, std::string const& s, std::string const& d)
{
	// origin under which d is reached: the one declared on an edge inside the closure
	return "";
}

static void checkInvocation(World& w, Spec const& sp, Model& m, Run const& r)
{
	for(auto& inv: r.invs)
	{
		if(inv.mode() != "compile") continue;
		auto s = norm(inv.src());
		auto bad = [&](std::string const& tag, std::string const& msg) { expect("C07", false, tag, msg, w, &r); };
		if(inv.args.size() != 2) { bad("argc", "a recipe was started with " + std::to_string(inv.args.size()) + " arguments"); continue; }
		if(inv.j.t != J::Obj) { bad("json", "the argument of the recipe is no JSON object: " + inv.args[1]); continue; }
		auto i = m.n.find(s);
		if(i == m.n.end()) { bad("source", "compile of unknown source " + s); continue; }
		auto& x = i->second;
		if(x.recipe.empty()) { if(norm(inv.path) != s) bad("recipe", s + " was not executed itself but " + inv.path); }
		else if(norm(inv.path) != norm((sp.recipes.count(x.recipe) ? sp.srcdir + "/" : "") + x.recipe)) bad("recipe", s + " compiled by " + inv.path + " instead of " + x.recipe);
		std::set<std::string> keys;
		for(auto& kv: inv.j.o) keys.insert(kv.first);
		// targets
		std::multiset<std::string> tw, tg;
		for(auto& t: x.targets) tw.insert(t.first);
		for(auto& t: inv.j.at("targets").a) tg.insert(norm(t.s));
		if(tw != tg) bad("targets", "targets of " + s + ":" + cdiff(tw, tg));
		if(!(inv.j.at("compiler_cfg") == x.cfg)) bad("config", "compiler configuration of " + s + " is " + inv.j.at("compiler_cfg").dump() + " but should be " + x.cfg.dump());
		auto bi = inv.j.find("build_info");
		if(!bi) bad("build_info", "no build_info");
		else
		{
			if(norm(bi->at("source_dir").s) != norm(sp.srcdir)) bad("source_dir", "source_dir is " + bi->at("source_dir").s);
			if(norm(bi->at("target_dir").s) != norm(sp.tgtdir)) bad("target_dir", "target_dir is " + bi->at("target_dir").s);
		}
		if(inv.j.at("log_format").s != "plain_text") bad("log_format", "log_format is " + inv.j.at("log_format").dump());
		// dependencies
		auto const& clo = m.closure(s);
		std::map<std::string, size_t> pos;
		size_t k = 0;
		for(auto& d: inv.j.at("dependencies").a)
		{
			auto n = norm(d.at("ref").s);
			if(!pos.insert({n, k++}).second) bad("repeated", "dependency " + n + " of " + s + " is listed more than once");
			if(!clo.count(n)) { bad("extra-dep", s + " got the dependency " + n + " which it does not have"); continue; }
			// origin and properties: as declared by some edge of the closure (or source itself)
			bool found = false;
			std::string decl;
			auto look = [&](std::string const& from) {
				auto q = m.n.find(from);
				if(q == m.n.end()) return;
				for(auto* v: {&q->second.use, &q->second.build})
					for(auto& e: *v)
						if(e.name == n)
						{
							J props = J::obj();
							for(auto& p: e.props) props.set(p.first, p.second);
							J got = J::obj();
							for(auto& kv: d.o) if(kv.first != "ref" && kv.first != "origin" && kv.first != "expression" && kv.first != "rev_min" && kv.first != "rev_max") got.set(kv.first, kv.second);
							decl += " " + e.origin + props.dump();
							if(e.origin == d.at("origin").s && got == props) found = true;
						}
			};
			look(s);
			for(auto& c: clo) look(c);
			if(!found) bad("origin", "dependency " + n + " of " + s + " is passed as " + d.dump() + " but is declared as" + decl);
		}
		for(auto& c: clo) if(!pos.count(c)) bad("missing-dep", "dependency " + c + " of " + s + " is not passed to the recipe");
		for(auto& p: pos)
			for(auto& q: pos)
				if(p.first != q.first && m.n.count(p.first) && m.closure(p.first).count(q.first) && q.second > p.second) bad("dep-order", "in the list passed for " + s + ", " + p.first + " comes before " + q.first + " on which it depends");
	}
}

static void checkContents(char const* prop, World& w, Model& m, Run const& r)
{
	Contents c(m, w);
	for(auto& x: m.n)
		if(x.second.gen)
		{
			auto want = c.of(x.first);
			auto got = depContent(w, x.first);
			expect(prop, want == got, "content", "target " + x.first + " is\n" + got + "but a clean build gives\n" + want, w, &r);
		}
}


// outcome of a from-scratch build in which the tasks in `beh` behave differently from a successful recipe
static void judgeOutcome(World& w, Model& m, std::map<std::string, Beh> const& beh, Run const& r)
{
	bool bad = m.cyclic || m.unresolved || m.dup;
	if(bad)
	{
		expect("C03", r.exit_code != 0 && r.compiles().empty(), "refused", "an invalid project was built", w, &r);
		return;
	}
	checkOrder(w, m, r);
	auto got = r.compiled();
	bool failing = false;
	std::set<std::string> failed;
	for(auto& b: beh) if(b.second.code || b.second.sig || b.second.noexec) { failing = true; failed.insert(b.first); }
	for(auto& t: got) expect("C02", got.count(t) == 1, "twice", "the recipe for " + t + " was run more than once", w, &r);
	std::multiset<std::string> all = taskSet(m);
	if(!failing)
	{
		expect("C02", got == all, "tasks", "tasks run differ from the tasks of the project:" + cdiff(all, got), w, &r);
		expect("C03", r.exit_code == 0, "status", "no recipe failed but maike exits with status " + std::to_string(r.exit_code), w, &r);
		for(auto p: {"C21", "C10"}) expect(p, got == all && r.exit_code == 0, "outcome", "the outcome depends on the schedule:" + cdiff(all, got), w, &r);
		for(auto p: {"C01", "C21"}) checkContents(p, w, m, r);
	}
	else
	{
		// at least one of the failing tasks has no failing task in its closure and is always reached
		for(auto& f: failed)
		{
			for(auto& t: got)
				expect("C03", !m.closure(t).count(f) || t == f, "dependent", "the recipe for " + t + " was run although " + f + ", on which it depends, failed", w, &r);
			auto b = beh.find(f);
			if(b->second.noexec && failed.size() == 1)
				expect("C03", (r.err + r.out).find(m.n[f].recipe) != std::string::npos, "unreported", "the recipe " + m.n[f].recipe + " that cannot be started is not reported", w, &r);
		}
		expect("C03", r.exit_code != 0, "status", "a recipe failed but maike exits with status 0", w, &r);
		for(auto& i: r.invs)
		{
			if(i.mode() != "compile" || !(i.code || i.sig)) continue;
			auto s = norm(i.src());
			expect("C03", r.out.find(s) != std::string::npos || r.err.find(s) != std::string::npos, "unreported", "the failing source file " + s + " is not reported", w, &r);
			auto b = beh.find(s);
			if(b != beh.end() && !b->second.err.empty()) expect("C03", r.err.find(b->second.err) != std::string::npos || r.out.find(b->second.err) != std::string::npos, "unreported", "the error output of " + s + " is not reported", w, &r);
		}
	}
	for(auto p: {"C02", "C03"})
	{
		expect(p, r.live == 0, "alive", "maike exits while recipes it started are running", w, &r);
		expect(p, r.zombies == 0, "zombies", "maike leaves zombie processes", w, &r);
	}
}
