// Whole-program enumeration: every project / history of a bounded family is built by the real maike (main()
// under the controlled runtime, virtual recipe processes) and compared with the reference model.
#include "harness/common.h"

static void graphCase(World& w, Spec const& sp, int workers)
{
	materialise(w, sp);
	auto m = makeModel(sp);
	bool bad = m.cyclic || m.unresolved || m.dup;
	if(bad && !on("C06") && !on("C02")) { --mc::currentResult()->inner_states; return; }
	BuildOpt o;
	o.workers = workers;
	Run r = build(w, {}, {}, o);
	sample(describe(w) + r.dump());
	checkTermination(w, r);
	checkRefusal(w, m, r);
	if(!ended(r)) return;
	if(bad) return;
	checkOrder(w, m, r);
	if(on("C07")) checkInvocation(w, sp, m, r);
}

static void addGraphs(Scens& v)
{
	for(auto& f: graphFamilies())
		batch(v, f.name, f.size, f.per, [f](World& w, size_t i) { graphCase(w, f.make(i), 2); });
}

// -- failing recipes
static void failCase(World& w, Spec const& sp, Model& m, std::map<std::string, Beh> const& beh, int workers)
{
	BuildOpt o;
	o.workers = workers;
	Plan plan = [&beh](Inv const& i) { Beh b; if(i.mode() == "compile") { auto k = beh.find(norm(i.src())); if(k != beh.end()) b = k->second; } return b; };
	Run r = build(w, {}, plan, o);
	sample(describe(w) + r.dump());
	for(auto p: {"C02", "C03"}) expect(p, ended(r), "not-ended", "maike did not end: " + r.msg, w, &r);
	if(ended(r)) judgeOutcome(w, m, beh, r);
}
static Beh failKind(int k)
{
	Beh b;
	b.err = "E-MARK %s\n";
	b.write = 0;
	switch(k)
	{
		case 0: b.code = 1; break;
		case 1: b.code = 2; b.write = 1; break;
		case 2: b.sig = 11; b.write = 1; break;
		case 3: b.noexec = EACCES; break;
		case 4: b.code = 255; b.write = 2; break;
		case 5: b.sig = 9; b.write = 2; break;
	}
	return b;
}
static void addFailures(Scens& v)
{
	for(auto& f: graphFamilies(true))
		batch(v, "fail-" + f.name, f.size, f.per, [f](World& w, size_t i) {
			auto sp = f.make(i);
			auto m = makeModel(sp);
			--mc::currentResult()->inner_states;
			if(m.cyclic || m.unresolved || m.dup) return;
			auto tasks = m.tasks();
			int k = i;
			for(auto& t: tasks)
			{
				if(m.n[t].dir && t != ".") continue;
				for(int q = 0; q < (thorough() ? 6 : 1); ++q)
				{
					++mc::currentResult()->inner_states;
					w.reset();
					materialise(w, sp);
					failCase(w, sp, m, {{t, failKind(k++ % 6)}}, 1 + k % 3);
				}
			}
		});
	// every way to end, on one task, a chain, and two independent tasks
	struct End { int code, sig, noexec; };
	auto ends = std::make_shared<std::vector<End>>();
	for(int c = 1; c < 256; ++c) ends->push_back({c, 0, 0});
	for(int s = 1; s < 32; ++s) if(s != SIGSTOP && s != SIGTSTP && s != SIGTTIN && s != SIGTTOU && s != SIGCONT && s != SIGCHLD && s != SIGURG && s != SIGWINCH) ends->push_back({0, s, 0});
	for(int e: {ENOENT, EACCES, ENOEXEC, ENOMEM, EAGAIN, ELOOP, ETXTBSY, E2BIG, EIO}) ends->push_back({0, 0, e});
	Strs errs{"", "x", "x\n", "two\nlines\n", "%s%n%d\n", std::string(5000, 'e') + "\n", std::string(200000, 'q')};
	if(on("C03") || thorough()) batch(v, "ends", ends->size() * errs.size() * 3, 100, [ends, errs](World& w, size_t i) {
		size_t shape = i % 3;
		i /= 3;
		auto e = (*ends)[i % ends->size()];
		auto err = errs[i / ends->size()];
		if(e.noexec && !err.empty()) { --mc::currentResult()->inner_states; return; }
		Spec sp = baseSpec();
		Src a, b;
		a.path = "a.x";
		a.targets = {"a.t"};
		b.path = "b.x";
		b.targets = {"b.t"};
		if(shape == 1) b.edges.push_back({'D', "a.t", "", {}});
		sp.srcs = {a};
		if(shape) sp.srcs.push_back(b);
		auto m = makeModel(sp);
		materialise(w, sp);
		Beh x;
		x.code = e.code;
		x.sig = e.sig;
		x.noexec = e.noexec;
		x.err = err;
		x.write = 0;
		failCase(w, sp, m, {{"a.x", x}}, 2);
	});
	// two failing tasks at once
	batch(v, "pairs", 13 * 36, 60, [](World& w, size_t i) {
		static std::vector<std::vector<std::vector<int>>> const shapes{{{}, {}}, {{}, {0}}, {{1}, {}}, {{}, {}, {}}, {{}, {0}, {1}}, {{1}, {2}, {}}, {{}, {0}, {0}}, {{}, {}, {0, 1}}, {{1, 2}, {}, {}}, {{}, {0}, {0, 1}}, {{}, {0}, {}}, {{}, {0}, {0}, {1, 2}}, {{1, 2}, {3}, {3}, {}}};
		auto& sh = shapes[i % 13];
		i /= 13;
		int k1 = i % 6, k2 = i / 6;
		Spec sp = baseSpec();
		for(size_t q = 0; q < sh.size(); ++q) { Src s; s.path = kNames[q] + ".x"; s.targets = {kNames[q] + ".t"}; for(int d: sh[q]) s.edges.push_back({'D', kNames[d] + ".t", "", {}}); sp.srcs.push_back(s); }
		auto m = makeModel(sp);
		--mc::currentResult()->inner_states;
		for(size_t x = 0; x < sh.size(); ++x)
			for(size_t y = 0; y < sh.size(); ++y)
				if(x != y)
				{
					++mc::currentResult()->inner_states;
					w.reset();
					materialise(w, sp);
					failCase(w, sp, m, {{sp.srcs[x].path, failKind(k1)}, {sp.srcs[y].path, failKind(k2)}}, 1 + (x + y) % 3);
				}
	});
	// a recipe failing to configure itself
	batch(v, "configure", 5 * 8, 8, [](World& w, size_t i) {
		Strs rec{"mkdir.rcp", "x.rcp", "c.rcp", "l.rcp", "m.rcp"};
		auto rc = rec[i % 5];
		int kind = i / 5;
		Spec sp = baseSpec();
		Src a;
		a.path = "a.x";
		a.targets = {"a.t"};
		sp.srcs = {a};
		materialise(w, sp);
		Plan plan = [rc, kind](Inv const& v) {
			Beh b;
			if(v.mode() != "configure" || fs::path(v.path).filename() != rc) return b;
			b.err = "CFG-MARK\n";
			switch(kind)
			{
				case 0: b.code = 1; break;
				case 1: b.code = 255; break;
				case 2: b.sig = 9; break;
				case 3: b.sig = 15; b.set_out = true; break;
				case 4: b.noexec = EACCES; break;
				case 5: b.noexec = ENOENT; break;
				case 6: b.code = 3; b.set_out = true; b.out = "{}"; break;
				case 7: b.code = 1; b.set_out = true; b.out = "{\"k\":"; break;
			}
			return b;
		};
		BuildOpt o;
		o.workers = 2;
		Run r = build(w, {}, plan, o);
		sample(describe(w) + r.dump());
		expect("C03", ended(r), "not-ended", "maike did not end: " + r.msg, w, &r);
		expect("C03", r.exit_code != 0, "configure-status", "configuring " + rc + " failed but maike exits with status 0", w, &r);
		expect("C03", r.compiles().empty(), "configure-built", "targets were built although configuring " + rc + " failed", w, &r);
		expect("C03", r.err.find(rc) != std::string::npos, "configure-unreported", "the recipe that failed to configure is not reported", w, &r);
		expect("C03", r.live == 0 && r.zombies == 0, "alive", "processes left behind", w, &r);
	});
}

// -- listings
static void checkListings(World& w, Spec const& sp, Model& m, bool to_file, int workers = 2)
{
	std::multiset<std::string> tw, ew;
	for(auto& x: m.n)
	{
		for(auto& t: x.second.targets) if(t.first != x.first) tw.insert(fs::path(t.first).lexically_relative(norm(sp.tgtdir)).string());
		std::set<std::string> e;
		for(auto* v: {&x.second.use, &x.second.build}) for(auto& d: *v) e.insert(d.name);
		for(auto& d: e) ew.insert(x.first + " -> " + d);
	}
	BuildOpt o;
	o.workers = workers;
	for(int k = 0; k < 2; ++k)
	{
		Strs a{k ? "--print-dep-graph" : "--list-targets"};
		if(to_file) a[0] += "=listing";
		Run r = build(w, a, {}, o);
		sample(describe(w) + r.dump() + r.out);
		if(!ended(r)) { expect("C26", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
		expect("C26", r.exit_code == 0, "status", a[0] + " ended with status " + std::to_string(r.exit_code), w, &r);
		std::string text = to_file ? w.get("listing") : r.out;
		std::multiset<std::string> got;
		std::istringstream in(text);
		std::string l;
		bool graph = false, closed = false;
		while(std::getline(in, l))
		{
			if(l.empty() || l[0] == '#') continue;
			if(!k) { got.insert(norm(l)); continue; }
			if(l.rfind("digraph", 0) == 0) { graph = true; continue; }
			if(l == "}") { closed = true; continue; }
			if(l.find("->") == std::string::npos) continue;
			// two quoted identifiers as Graphviz reads them
			std::string id[2];
			size_t i = 0;
			bool ok = true;
			for(int q = 0; q < 2 && ok; ++q)
			{
				while(i < l.size() && l[i] != '"') ++i;
				if(i++ >= l.size()) { ok = false; break; }
				while(i < l.size() && l[i] != '"') { if(l[i] == '\\' && i + 1 < l.size() && l[i + 1] == '"') ++i; id[q] += l[i++]; }
				ok = i++ < l.size();
			}
			while(ok && i < l.size()) if(!strchr(" \t;", l[i++])) ok = false;
			expect("C26", ok, "syntax", "the line " + l + " does not name two nodes", w, &r);
			got.insert(norm(id[0]) + " -> " + norm(id[1]));
		}
		if(k) expect("C26", graph && closed, "syntax", "the dependency graph is no complete digraph:\n" + text, w, &r);
		auto& want = k ? ew : tw;
		if(!k) { std::multiset<std::string> n; for(auto& t: tw) n.insert(norm(t)); tw = n; }
		expect("C26", got == want, k ? "edges" : "targets", std::string(k ? "printed dependencies" : "listed targets") + " differ from those of the project:" + cdiff(want, got) + "\n" + text, w, &r);
		if(to_file) w.rm("listing");
	}
}
static void addListings(Scens& v)
{
	for(auto& f: graphFamilies(true))
		batch(v, "list-" + f.name, f.size, f.per, [f](World& w, size_t i) {
			auto sp = f.make(i);
			auto m = makeModel(sp);
			if(m.cyclic || m.unresolved || m.dup) { --mc::currentResult()->inner_states; return; }
			materialise(w, sp);
			checkListings(w, sp, m, i & 1, 1 + i % 3);
		});
	// unusual characters in the names of files, directories and targets
	Strs chars;
	for(int c = 33; c < 127; ++c) if(c != '/') chars.push_back(std::string(1, c));
	for(auto& x: Strs{" ", "  ", "a b", "->", "\" -> \"", "\\n", "%s%n", "\xc3\xa5", "..", "...", "-", "#", "{", "}"}) chars.push_back(x);
	batch(v, "list-chars", chars.size() * 3, 20, [chars](World& w, size_t i) {
		auto c = chars[i / 3];
		Spec sp = baseSpec();
		Src a, b;
		a.path = i % 3 == 1 ? "p" + c + "q/a.x" : i % 3 == 0 ? "p" + c + "q.x" : "a.x";
		a.targets = {i % 3 == 2 ? "p" + c + "q.t" : "a.t"};
		b.path = "b.x";
		b.targets = {"b.t"};
		b.edges.push_back({'D', (fs::path(a.path).parent_path() / a.targets[0]).string(), "", {}});
		b.edges.push_back({'D', a.path, "project", {}});
		sp.srcs = {a, b};
		auto m = makeModel(sp);
		if(m.cyclic || m.unresolved || m.dup) mc::fail("harness", "unexpected model");
		materialise(w, sp);
		checkListings(w, sp, m, false);
		checkListings(w, sp, m, true);
	});
	// targets that exist already
	for(auto& f: graphFamilies(true))
		if(f.name == "n3dirs" || f.name == "deep")
			batch(v, "list-built-" + f.name, f.size, f.per, [f](World& w, size_t i) {
				auto sp = f.make(i);
				auto m = makeModel(sp);
				if(m.cyclic || m.unresolved || m.dup) { --mc::currentResult()->inner_states; return; }
				materialise(w, sp);
				Run r = build(w, {}, {}, {});
				if(!ended(r)) return;
				checkListings(w, sp, m, !(i & 1));
			});
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g == "C01" || g == "C02" || g == "C03" || g == "C06" || g == "C07") addGraphs(v);
		if(g == "C03" || g == "C02") addFailures(v);
		if(g == "C26") addListings(v);
		return v;
	});
}
