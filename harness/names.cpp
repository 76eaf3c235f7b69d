// Names: spellings of target names (C09), of references, of the source and the target directory (C23).
#include "harness/common.h"

static Src src(std::string p, Strs t, std::vector<Edge> e = {}) { Src s; s.path = p; s.targets = t; s.edges = e; return s; }

// ---- C09
static void dupCase(World& w, Spec const& sp, int workers)
{
	materialise(w, sp);
	auto m = makeModel(sp);
	BuildOpt o;
	o.workers = workers;
	Run r = build(w, {}, {}, o);
	sample(describe(w) + r.dump());
	if(!ended(r)) { expect("C09", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	// paths claimed more than once
	std::map<std::string, std::vector<std::string>> claim;
	for(auto& x: m.n) for(auto& t: x.second.targets) if(t.first != x.first) claim[t.first].push_back(x.first);
	Strs dup;
	for(auto& c: claim) if(c.second.size() > 1) dup.push_back(c.first);
	if(dup.empty())
	{
		expect("C09", r.exit_code == 0, "refused", "all target paths differ but the project was refused", w, &r);
		expect("C09", r.compiled() == taskSet(m), "tasks", "all target paths differ but not everything was built:" + cdiff(taskSet(m), r.compiled()), w, &r);
	}
	else
	{
		expect("C09", r.exit_code != 0, "accepted", "two claims of " + dup[0] + " were accepted", w, &r);
		expect("C09", r.compiles().empty(), "built", "something was built although " + dup[0] + " is claimed twice", w, &r);
		bool ok = false;
		for(auto& d: dup)
			for(auto& c: claim[d])
				if(r.err.find(d) != std::string::npos && r.err.find(c == "." ? d : c) != std::string::npos) ok = true;
		expect("C09", ok, "diagnostic", "the diagnostic does not name the path claimed twice (" + dup[0] + ") and a source file claiming it", w, &r);
	}
}

static void addDups(Scens& v)
{
	// three files in three directories, each declaring one name out of a set of spellings
	Strs p{"a.x", "d/b.x", "d/e/c.x"};
	std::vector<Strs> sp3{{"t", "./t", "d/t", "d/./t", "d/../t", "d/e/t", "d//t", "d"}, {"t", "./t", "../t", "../d/t", "e/t", "../d/../t", "e/../t", "e"}, {"t", "../t", "../../t", "../../d/t", "./t", "../e/t", "../e/../t", "../../d/e/t"}};
	batch(v, "three", 8 * 8 * 8, 32, [=](World& w, size_t i) {
		Spec sp = baseSpec();
		for(int k = 0; k < 3; ++k) { sp.srcs.push_back(src(p[k], {sp3[k][i % 8]})); i /= 8; }
		dupCase(w, sp, 2);
	});
	// one or two files with two targets each
	Strs n{"t", "./t", "u", "d/t", "d/../t"};
	batch(v, "two-each", 5 * 5 * 5 * 5 * 4, 50, [=](World& w, size_t i) {
		Spec sp = baseSpec();
		int style = i % 4;
		i /= 4;
		Strs q;
		for(int k = 0; k < 4; ++k) { q.push_back(n[i % 5]); i /= 5; }
		auto a = src("a.x", {q[0], q[1]}), b = src("b.x", {q[2], q[3]});
		a.style = style & 1 ? 'a' : 't';
		b.style = style & 2 ? 'a' : 't';
		sp.srcs = {a, b, src("d/z.x", {"z"})};
		dupCase(w, sp, 1 + i % 3);
	});
	// different kinds of files
	Strs files{"a.x", "b.cc", "c.rule", "e.lib", "f.test.cc"};
	batch(v, "kinds", 5 * 5 * 3, 25, [=](World& w, size_t i) {
		Spec sp = baseSpec();
		auto f = files[i % 5], g = "d/" + files[i / 5 % 5];
		auto how = i / 25;
		sp.srcs = {src(f, {how == 0 ? "d/t" : how == 1 ? "t" : "d/../t"}), src(g, {how == 2 ? "../t" : "t"})};
		dupCase(w, sp, 2);
	});
}

// ---- C23
struct Place { std::string dir, sd, td; std::string cwd; };   // where the project lies, how it is given

static std::string expand(World& w, std::string s) { auto p = s.find('@'); if(p != std::string::npos) s.replace(p, 1, w.dir); return s; }

static std::set<std::string> lines(std::string const& out) { std::set<std::string> r; std::istringstream is(out); std::string l; while(std::getline(is, l)) if(!l.empty() && l[0] != '#') r.insert(l); return r; }

static void placeCase(World& w, Spec sp, Place const& pl, Strs const& extra_args, std::set<std::string> const* select)
{
	// materialise below pl.dir, then describe the project by the names that appear on the command line
	sp.srcdir = pl.dir;
	materialise(w, sp);
	Strs args;
	std::string sd = expand(w, pl.sd), td = expand(w, pl.td);
	if(!sd.empty()) args.push_back("--source-dir=" + sd);
	if(!td.empty()) args.push_back("--target-dir=" + td);
	std::string nsd = sd.empty() ? "." : norm(sd);
	std::string ntd = !td.empty() ? norm(td) : nsd == "." ? "__targets" : fs::path(nsd).filename().string() + "_targets";
	Spec q = sp;
	q.srcdir = nsd;
	q.tgtdir = ntd;
	auto m = makeModel(q);
	auto before = w.snap(true);
	BuildOpt o;
	o.workers = 2;
	o.cwd = pl.cwd;
	// listing of the targets does not depend on the spelling
	if(!select && !m.dup && !m.unresolved && !m.cyclic)
	{
		Strs la = args;
		la.push_back("--list-targets");
		Run l = build(w, la, {}, o);
		std::set<std::string> want;
		for(auto& x: m.n) for(auto& t: x.second.targets) { auto rel = fs::path(t.first).lexically_relative(ntd).string(); want.insert(norm(rel)); }
		std::set<std::string> got;
		for(auto& x: lines(l.out)) got.insert(norm(x));
		want.erase(".");
		got.erase(".");
		std::string ws, gs;
		for(auto& x: want) ws += " " + x;
		for(auto& x: got) gs += " " + x;
		expect("C23", ended(l) && want == got, "list", "the list of targets should be" + ws + " but is" + gs, w, &l);
	}
	Strs ba = args;
	ba.insert(ba.end(), extra_args.begin(), extra_args.end());
	Run r = build(w, ba, {}, o);
	sample(describe(w) + r.dump());
	if(!ended(r)) { expect("C23", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	if(m.dup || m.unresolved || m.cyclic) { expect("C23", r.exit_code != 0, "accepted", "an invalid project was accepted", w, &r); return; }
	expect("C23", r.exit_code == 0, "refused", "the project was refused or failed with --source-dir=" + sd + " --target-dir=" + td, w, &r);
	std::multiset<std::string> want;
	for(auto& t: m.tasks()) if(!select || select->count(t)) want.insert(t);
	if(select)
	{
		want.clear();
		std::set<std::string> s;
		for(auto& x: m.n) for(auto& t: x.second.targets) if(select->count(norm(fs::path(t.first).lexically_relative(ntd).string()))) { s.insert(x.first); for(auto& d: m.closure(x.first)) if(m.n[d].task()) s.insert(d); }
		want.insert(s.begin(), s.end());
	}
	expect("C23", r.compiled() == want, "tasks", "tasks run differ:" + cdiff(want, r.compiled()), w, &r);
	// files: sources untouched, new files exactly the targets
	auto after = w.snap(true);
	std::set<std::string> expected_new;
	std::string cw = pl.cwd.empty() ? "" : pl.cwd + "/";
	auto rel = [&](std::string const& p) { return p[0] == '/' ? norm(fs::path(p).lexically_relative(w.dir).string()) : norm(cw + p); };
	for(auto& x: m.n) for(auto& t: x.second.targets) if(!select || want.count(x.first)) expected_new.insert(rel(t.first));
	for(auto& f: before) expect("C23", after.count(f.first) && after[f.first] == f.second, "modified", "the source file " + f.first + " was modified", w, &r);
	for(auto& f: after) if(!before.count(f.first)) expect("C23", expected_new.count(f.first) > 0, "outside", "the file " + f.first + " is no target of the project", w, &r);
	for(auto& f: expected_new) expect("C23", after.count(f) > 0, "missing", "the target " + f + " was not produced", w, &r);
	// names of the dependencies
	for(auto& inv: r.invs)
	{
		if(inv.mode() != "compile" || inv.j.t != J::Obj) continue;
		auto s = norm(inv.src());
		std::set<std::string> got;
		for(auto& d: inv.j.at("dependencies").a) got.insert(norm(d.at("ref").s));
		auto const& clo = m.closure(s);
		expect("C23", got == clo, "deps", "the dependencies of " + s + " are wrong:" + cdiff({clo.begin(), clo.end()}, {got.begin(), got.end()}), w, &r);
	}
}

static Spec refSpec(int kind, size_t from, size_t to, size_t spelling, bool& ok)
{
	// one file in each directory, one reference
	static Strs const dirs{"", "d/", "d/e/", "f/"};
	Spec sp = baseSpec();
	ok = true;
	bool cc = kind == 5 || kind == 6;
	for(size_t k = 0; k < 4; ++k) sp.srcs.push_back(src(dirs[k] + kNames[k] + (cc ? ".cc" : ".x"), {kNames[k] + ".t"}));
	if(cc) for(size_t k = 0; k < 4; ++k) { sp.srcs.push_back(src(dirs[k] + kNames[k] + ".hh", {})); sp.srcs.push_back(src(dirs[k] + kNames[k] + ".rule", {kNames[k] + ".gen.hh"})); }
	std::string base = kind == 2 ? kNames[to] + ".x" : kind == 5 ? kNames[to] + ".hh" : kind == 6 ? kNames[to] + ".gen.hh" : kNames[to] + ".t";
	std::string root = dirs[to] + base;
	std::string here = fs::path(root).lexically_relative(dirs[from].empty() ? fs::path(".") : fs::path(dirs[from]).parent_path()).string();
	std::string ref;
	switch(spelling)
	{
		case 0: ref = root; break;
		case 1: ref = "./" + here; break;
		case 2: ref = "./" + dirs[from].substr(0, 0) + "zz/../" + here; break;
		case 3: ref = dirs[to] + "q/../" + base; break;
		case 4: ref = dirs[to] + "./" + base; break;
		case 5: ref = "d/../" + root; break;
	}
	char k = kind == 1 ? 'D' : kind == 2 ? 'D' : kind == 3 ? 'T' : kind == 4 ? 'X' : 'I';
	Edge e{k, ref, kind == 2 ? "project" : kind == 3 ? "generated" : "", {}};
	if(from == to && kind != 5 && kind != 6) ok = false;
	sp.srcs[from].edges.push_back(e);
	return sp;
}

static std::vector<Place> places()
{
	std::vector<Place> v;
	for(auto& t: Strs{"", "out", "out/", "./out", "out/../out", "out//", "@/out", "@/out/", "@/x/../out", "__targets", "./__targets"})
	{
		for(auto& s: Strs{"", ".", "./", "./.", "p/.."}) v.push_back({".", s, t, ""});
		for(auto& s: Strs{"p", "p/", "./p", "./p/", "p/.", "p/../p", "p//", "@/p", "@/p/", "@/./p", "@/q/../p"}) v.push_back({"p", s, t, ""});
		for(auto& s: Strs{"p/r", "p/r/", "./p/r", "p/./r", "p//r", "p/../p/r", "@/p/r"}) v.push_back({"p/r", s, t, ""});
	}
	for(auto& t: Strs{"", "../out", "./../out", "../out/", "../z/../out", "@/out"})
	{
		for(auto& s: Strs{"../p", "../p/", "./../p", "../p/.", "@/p"}) v.push_back({"p", s, t, "cw"});
	}
	return v;
}

static void addPlaces(Scens& v)
{
	auto pls = std::make_shared<std::vector<Place>>(places());
	auto proj = []() {
		Spec sp = baseSpec();
		sp.srcs = {src("a.x", {"a.t"}, {{'D', "d/e/c.t", "", {}}, {'D', "./d/b.x", "project", {}}}), src("d/b.x", {"b.t", "b2.t"}, {{'D', "./e/c.t", "", {}}}), src("d/e/c.x", {"c.t"}, {{'D', "h.x", "project", {}}}), src("h.x", {}, {{'X', "./k.t", "", {}}}), src("k.x", {"k.t"}), src("d/m.cc", {"m.o"}, {{'I', "./m.hh", "", {}}}), src("d/m.hh", {}, {{'X', "./m.o", "", {}}})};
		return sp;
	};
	batch(v, "places", pls->size(), 4, [pls, proj](World& w, size_t i) {
		auto& pl = (*pls)[i];
		if(!pl.cwd.empty()) w.makeDirs(w.abs(pl.cwd));
		placeCase(w, proj(), pl, {}, nullptr);
	});
	// selected targets, however spelled
	Strs sel{"a.t", "./a.t", "d/../a.t", "d/b.t", "d//b.t", "./d/./b.t", "d/e/../b2.t", "d/e/c.t", "k.t"};
	batch(v, "select", pls->size() * sel.size(), 16, [pls, proj, sel](World& w, size_t i) {
		auto& pl = (*pls)[i / sel.size()];
		auto t = sel[i % sel.size()];
		if(!pl.cwd.empty()) w.makeDirs(w.abs(pl.cwd));
		std::set<std::string> s{norm(t)};
		placeCase(w, proj(), pl, {"--targets=" + t}, &s);
	});
	// references, however spelled, between any two directories; from the root, a subdirectory and an absolute path
	std::vector<Place> some{{".", "", "", ""}, {"p", "p", "", ""}, {"p", "./p/", "./o/", ""}, {"p", "@/p", "@/o", ""}};
	batch(v, "refs", 6 * 4 * 4 * 6 * some.size(), 48, [some](World& w, size_t i) {
		auto pl = some[i % some.size()];
		i /= some.size();
		int kind = 1 + i % 6;
		i /= 6;
		size_t from = i % 4, to = i / 4 % 4, spelling = i / 16;
		bool ok;
		auto sp = refSpec(kind, from, to, spelling, ok);
		if(!ok) { --mc::currentResult()->inner_states; return; }
		placeCase(w, sp, pl, {}, nullptr);
	});
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g == "C09") addDups(v);
		if(g == "C23") addPlaces(v);
		return v;
	});
}
