// Recipes (C24): where they are found, how they are configured, overridden and asked for tags.
#include "harness/common.h"

static std::string const kSys = "/inst/lib/maike2/recipes/";
static Src src(std::string p, Strs t, std::vector<Edge> e = {}) { Src s; s.path = p; s.targets = t; s.edges = e; return s; }
static void ok24(bool c, std::string const& tag, std::string const& msg, World& w, Run const& r) { expect("C24", c, tag, msg, w, &r); }
static std::string where(World& w, Inv const& i) { return norm(w.abs(i.path)); }
static J cfgOf(J x, J own_filter = J())
{
	J l = J::obj({{"x", J::obj({{"loader", "extension"}, {"compiler", x}})}});
	return J::obj({{"dir_compiler", recipeCfg("mkdir.rcp")}, {"source_file_info_loaders", l},
	               {"source_tree_loader", J::obj({{"file_info_loaders", J::obj({{".x", "x"}})}, {"fullpath_input_filter", J::arr()}, {"input_filter", J::arr({"^\\.", "^__", "_targets$"})}, {"recursive", 1}})}});
}
static void writeCfg(World& w, std::string const& pre, J c) { w.put(pre + "maikeconfig.json", J::obj({{"maikeconfig", c}}).dump(false)); }
// every recipe was configured, with success, before the first compilation
static void configuredFirst(World& w, Run const& r)
{
	for(auto c: r.compiles()) for(auto& i: r.invs) if(i.mode() == "configure") ok24(i.ended && i.t1 < c->t0, "order", "a recipe was configured after the first compilation", w, r);
}
static void noBuild(World& w, Run const& r, std::string const& what)
{
	ok24(ended(r) && r.exit_code != 0, "accepted", what + " was accepted", w, r);
	ok24(r.compiles().empty(), "built", what + ": something was built", w, r);
	std::string e, l;
	std::istringstream s(r.err);
	while(std::getline(s, l)) if(l.compare(0, 2, "--") && l.compare(0, 1, "#")) e += l;
	ok24(!e.empty(), "silent", what + " was not reported", w, r);
}

// ---- where recipes are found
// 0 nowhere, 1 project, 2 installation, 3 both, 4 a directory of that name in the project and a file in the installation
static std::string place(World& w, std::string const& pre, std::string const& n, int k)
{
	auto sys = w.base + kSys + n;
	if(k == 1 || k == 3) w.put(pre + n, "p\n", true);
	if(k == 4) w.put(pre + n + "/note", "x\n");
	if(k == 2 || k == 3 || k == 4) w.put(sys, "s\n", true);
	if(k == 1 || k == 3) return norm(w.abs(pre + n));
	return k ? norm(sys) : "";
}
static void lookup(World& w, size_t i)
{
	auto pick = [&i](size_t n) { auto r = i % n; i /= n; return r; };
	int kd = pick(4), kx = pick(5), ko = pick(5);
	std::string pre = pick(2) ? "p/" : "";
	Strs names{"r.rcp", "sub/r.rcp"};
	auto nx = names[pick(2)], no = std::string("o.rcp");
	bool same = pick(2);          // the source's own recipe is the one of the loader
	std::string mk = place(w, pre, "mkdir.rcp", kd), x = place(w, pre, nx, kx), o = same ? x : place(w, pre, no, ko);
	if(same) no = nx, ko = kx;
	writeCfg(w, pre, cfgOf(recipeCfg(nx, J::obj({{"k", 1}}))));
	w.put(pre + "a.x", "#@{\"target\":{\"name\":\"a.t\"}}\n");
	w.put(pre + "d/b.x", "#@{\"target\":{\"name\":\"b.t\"},\"compiler\":{\"recipe\":\"" + no + "\",\"config\":{}}}\n");
	auto r = build(w, {"--source-dir=" + std::string(pre.empty() ? "." : "p")}, {});
	sample(r.dump());
	if(mk.empty() || x.empty() || o.empty())
	{
		noBuild(w, r, "a missing recipe");
		auto n = mk.empty() ? "mkdir.rcp" : x.empty() ? nx : no;
		ok24(r.err.find(n) != std::string::npos, "which", "the message does not say which recipe is missing (" + n + ")", w, r);
		return;
	}
	ok24(ended(r) && r.exit_code == 0, "failed", "the build failed although every recipe exists", w, r);
	for(auto c: r.compiles())
	{
		auto s = norm(c->src());
		bool dir = s == norm(pre + ".") || s == norm(pre + "d") || s == norm(pre + "sub") || s == norm(pre + nx) || s == norm(pre + no) || s == norm(pre + "mkdir.rcp");
		auto want = dir ? mk : s == pre + "d/b.x" ? o : x;
		auto kind = dir ? kd : s == pre + "d/b.x" ? ko : kx;
		ok24(where(w, *c) == want, "recipe", s + " was compiled by " + where(w, *c) + " instead of " + want, w, r);
		bool dep = false;
		for(auto& d: c->j.at("dependencies").a) dep = dep || (norm(w.abs(d.at("ref").s)) == want && d.at("origin").s == (kind == 1 || kind == 3 ? "project" : "system"));
		ok24(dep, "dependency", s + " does not depend on its recipe " + want, w, r);
	}
	std::multiset<std::string> got, wanted{mk, x, o};
	for(auto& q: r.invs) if(q.mode() == "configure") got.insert(where(w, q));
	ok24(got == wanted, "configured", "the recipes configured are wrong:" + cdiff(wanted, got), w, r);
	configuredFirst(w, r);
}

// ---- what recipes answer when configured
struct Answer { std::string name; Beh b; bool fails; bool keep; J cfg; };
static std::vector<Answer> answers()
{
	std::vector<Answer> a;
	auto say = [&a](std::string n, std::string out, J cfg, bool keep = false) { Beh b; b.set_out = true; b.out = out; a.push_back({n, b, false, keep, cfg}); };
	say("nothing", "", J(), true);
	say("empty", "{}", J::obj());
	say("blank", " \n", J::obj());
	J c = J::obj({{"k", 7}, {"n", J::obj({{"a", J::arr({1, "two"})}})}, {"s", "q\"uo\\te\n"}});
	say("small", c.dump(false), c);
	say("newline", "\n  " + c.dump(false) + "\n\n", c);
	for(size_t n: {4095, 4096, 4097, 8192, 65535, 65536, 65537, 131073, 300000}) { J d = J::obj({{"z", std::string(n - 8, 'v')}}); say("bytes" + std::to_string(n), d.dump(false), d); }
	for(std::string t: {"{", "x", "[]", "1", "{\"k\":", "{\"k\":1,}", "\"k\"", "{\"k\":1,\"k\":2}"}) { Beh b; b.set_out = true; b.out = t; a.push_back({"malformed " + t, b, true, false, J()}); }
	auto fail = [&a, c](std::string n, std::function<void(Beh&)> f) { Beh b; b.set_out = true; b.out = c.dump(false); f(b); a.push_back({n, b, true, false, J()}); };
	fail("exit1", [](Beh& b) { b.code = 1; });
	fail("exit255", [](Beh& b) { b.code = 255; });
	fail("exit1 silent", [](Beh& b) { b.code = 1; b.out = ""; });
	fail("killed", [](Beh& b) { b.sig = 9; });
	fail("noexec", [](Beh& b) { b.noexec = EACCES; });
	fail("noexec2", [](Beh& b) { b.noexec = ENOEXEC; });
	{ Beh b; b.set_out = true; b.out = c.dump(false); b.err = std::string(70000, 'e'); a.push_back({"noise", b, false, false, c}); }
	return a;
}
static void configure(World& w, Answer const& d, Answer const& x, Answer const& o)
{
	J conf = cfgOf(recipeCfg("x.rcp", J::obj({{"x", J::arr({1})}})));
	conf.set("dir_compiler", recipeCfg("mkdir.rcp", J::obj({{"d", 1}})));
	for(auto n: {"mkdir.rcp", "x.rcp", "o.rcp"}) w.put(n, "r\n", true);
	writeCfg(w, "", conf);
	w.put("a.x", "#@{\"target\":{\"name\":\"a.t\"}}\n");
	w.put("b.x", "#@{\"target\":{\"name\":\"b.t\"},\"compiler\":{\"recipe\":\"o.rcp\",\"config\":{\"o\":1}}}\n");
	auto which = [&](Inv const& i) -> Answer const& { auto f = fs::path(i.path).filename(); return f == "mkdir.rcp" ? d : f == "o.rcp" ? o : x; };
	auto r = build(w, {}, [&](Inv const& i) { return i.mode() == "configure" ? which(i).b : Beh{}; });
	auto what = "directories: " + d.name + ", default: " + x.name + ", own: " + o.name;
	sample(what + "\n" + r.dump());
	if(d.fails || x.fails || o.fails) { noBuild(w, r, "a recipe that cannot be configured (" + what + ")"); return; }
	J dc = d.keep ? J::obj({{"d", 1}}) : d.cfg, xc = x.keep ? J::obj({{"x", J::arr({1})}}) : x.cfg, oc = o.keep ? J::obj({{"o", 1}}) : o.cfg, bc = xc;
	bool good = merge(bc, oc);
	if(!good) { noBuild(w, r, "an override of another kind (" + what + ")"); return; }
	ok24(ended(r) && r.exit_code == 0, "failed", "the build failed: " + what, w, r);
	int n = 0;
	for(auto c: r.compiles())
	{
		auto s = norm(c->src());
		auto& want = s == "." ? dc : s == "a.x" ? xc : bc;
		ok24(c->j.at("compiler_cfg").dump() == want.dump(), "config", s + " did not get the configuration its recipe reported (" + what + "): " + c->j.at("compiler_cfg").dump().substr(0, 300), w, r);
		++n;
	}
	ok24(n == 3, "tasks", "not everything was built: " + what, w, r);
	std::multiset<std::string> got, wanted{"mkdir.rcp " + J::obj({{"d", 1}}).dump(), "x.rcp " + J::obj({{"x", J::arr({1})}}).dump(), "o.rcp " + J::obj({{"o", 1}}).dump()};
	for(auto& q: r.invs) if(q.mode() == "configure") got.insert(fs::path(q.path).filename().string() + " " + q.j.dump());
	ok24(got == wanted, "configured", "the recipes configured are wrong:" + cdiff(wanted, got), w, r);
	configuredFirst(w, r);
}

// ---- a source's own compiler over the default one
static std::vector<J> overlays()
{
	return {J::obj(), J::obj({{"k", 1}}), J::obj({{"k", 2}, {"m", "s"}}), J::obj({{"k", J::arr({1, "a"})}}), J::obj({{"k", J::arr({2})}, {"m", "t"}}), J::obj({{"k", J::obj({{"a", 1}, {"b", J::arr({1})}})}}), J::obj({{"k", J::obj({{"b", J::arr({2})}, {"c", J::obj({{"d", 1}})}})}}), J::obj({{"k", J::boolean(true)}}), J::obj({{"k", J::boolean(false)}, {"m", J()}}), J::obj({{"m", J::arr({1})}})};
}
static void overridden(World& w, size_t i)
{
	auto O = overlays();
	auto pick = [&i](size_t n) { auto r = i % n; i /= n; return r; };
	J def = O[pick(O.size())], own = O[pick(O.size())];
	int rec = pick(4), sysdef = pick(2), utg = pick(2), defrec = pick(2);
	// the default recipe may be the source file itself
	std::string xname = defrec ? "" : "x.rcp";
	if(sysdef && xname.empty()) { --mc::currentResult()->inner_states; return; }
	if(sysdef) w.put(w.base + kSys + "x.rcp", "x\n", true); else w.put("x.rcp", "x\n", true);
	w.put("y.rcp", "y\n", true);
	w.put("mkdir.rcp", "m\n", true);
	writeCfg(w, "", cfgOf(recipeCfg(xname, def)));
	J oc = J::obj({{"config", own}});
	if(rec == 1) oc.set("recipe", "");
	if(rec == 2) oc.set("recipe", "y.rcp");
	if(rec == 3) oc.set("recipe", "x.rcp");
	if(utg) oc.set("use_get_tags", 1);
	w.put("a.x", "#@{\"target\":{\"name\":\"a.t\"}}\n", true);
	w.put("b.x", "#@" + J::obj({{"target", J::obj({{"name", "b.t"}})}, {"compiler", oc}}).dump(false) + "\n", true);
	Plan plan = [](Inv const& q) { Beh b; if(q.mode() == "get_tags") { b.set_out = true; b.out = "{\"dependencies\":[{\"ref\":\"a.t\"}]}"; } return b; };
	auto r = build(w, {}, plan);
	J want = def;
	bool good = merge(want, own);
	sample(r.dump());
	if(!good) { noBuild(w, r, "an override of another kind"); return; }
	ok24(ended(r) && r.exit_code == 0, "failed", "the build failed", w, r);
	auto used = rec == 2 ? norm(w.abs("y.rcp")) : xname.empty() && rec != 3 ? norm(w.abs("b.x")) : sysdef ? norm(w.base + kSys + "x.rcp") : norm(w.abs("x.rcp"));
	bool found = false;
	int tags = 0;
	for(auto& q: r.invs)
	{
		if(q.mode() == "configure" || norm(q.src()) != "b.x") continue;
		ok24(where(w, q) == used, "recipe", q.mode() + " was done by " + where(w, q) + " instead of " + used, w, r);
		ok24(q.j.at("compiler_cfg").dump() == want.dump(), "merge", q.mode() + ": the configuration is " + q.j.at("compiler_cfg").dump() + " instead of " + want.dump(), w, r);
		if(q.mode() == "get_tags") ++tags;
		if(q.mode() == "compile")
		{
			found = true;
			bool dep = used == norm(w.abs("b.x")), at = false;
			for(auto& d: q.j.at("dependencies").a) { dep = dep || norm(w.abs(d.at("ref").s)) == used; at = at || norm(d.at("ref").s) == "__targets/a.t"; }
			ok24(dep, "dependency", "the source does not depend on the recipe that compiles it", w, r);
			ok24(at == (utg == 1), "tags", "the dependencies reported by the recipe are not used as they should", w, r);
		}
	}
	ok24(found && tags == utg, "tasks", "the source was not compiled, or not asked for tags as declared", w, r);
	// a source without declaration is not affected by its neighbour
	for(auto c: r.compiles()) if(norm(c->src()) == "a.x") ok24(c->j.at("compiler_cfg").dump() == def.dump(), "leak", "a source without a declaration got another configuration", w, r);
}

// ---- tags reported by the recipe count like tags in the file
static std::multiset<std::string> compilations(Run const& r)
{
	std::multiset<std::string> s;
	for(auto c: r.compiles())
	{
		auto sorted = [](std::vector<J> const& v) { std::multiset<std::string> x; for(auto& e: v) x.insert(e.dump()); std::string t; for(auto& e: x) t += e + ";"; return t; };
		s.insert(norm(c->src()) + " T:" + sorted(c->j.at("targets").a) + " D:" + sorted(c->j.at("dependencies").a));
	}
	return s;
}
static void tagged(World& w, size_t i)
{
	auto pick = [&i](size_t n) { auto r = i % n; i /= n; return r; };
	size_t in_file = pick(32), present = pick(32);
	int self = pick(2);          // the file is its own recipe
	// the parts: target, second target, dependency, generated dependency of targets, project dependency
	auto part = [](J& t, int k) {
		auto app = [&t](std::string const& key, J v) { J a = t.has(key) ? t.at(key) : J::arr(); a.a.push_back(v); t.set(key, a); };
		if(k == 0) t.set("target", J::obj({{"name", "m.t"}, {"dependencies", J::arr({J::obj({{"ref", "a.t"}, {"origin", "generated"}, {"rel", "misc"}})})}}));
		if(k == 1) app("targets", J::obj({{"name", "n.t"}}));
		if(k == 2) app("dependencies", J::obj({{"ref", "b.t"}}));
		if(k == 3) app("dependencies_extra", J::obj({{"ref", "./c.t"}, {"rel", "implementation"}}));
		if(k == 4) app("dependencies", J::obj({{"ref", "p.txt"}, {"origin", "project"}, {"q", "v"}}));
	};
	J file = J::obj(), rec = J::obj(), all = J::obj();
	for(int k = 0; k < 5; ++k) if(present >> k & 1) { part(in_file >> k & 1 ? file : rec, k); part(all, k); }
	if(in_file & ~present) { --mc::currentResult()->inner_states; return; }
	std::multiset<std::string> got[2];
	Run runs[2];
	for(int k = 0; k < 2; ++k)
	{
		w.reset();
		for(auto n: {"mkdir.rcp", "x.rcp", "y.rcp"}) w.put(n, "r\n", true);
		J c = cfgOf(recipeCfg("x.rcp", J::obj({{"k", 1}})));
		J l = c.at("source_file_info_loaders");
		l.set("m", J::obj({{"loader", "extension"}, {"compiler", recipeCfg(self ? "" : "y.rcp", J::obj({{"k", 2}}), 1)}}));
		c.set("source_file_info_loaders", l);
		J t = c.at("source_tree_loader");
		t.set("file_info_loaders", J::obj({{".x", "x"}, {".m", "m"}}));
		c.set("source_tree_loader", t);
		writeCfg(w, "", c);
		for(auto n: {"a", "b", "c"}) w.put(std::string(n) + ".x", "#@{\"target\":{\"name\":\"" + std::string(n) + ".t\"}}\n");
		w.put("p.txt", "p\n");
		w.put("m.m", "#@" + (k ? all : file).dump(false) + "\n", true);
		w.put("z.x", "#@{\"target\":{\"name\":\"z.t\"},\"dependencies\":[{\"ref\":\"m.m\",\"origin\":\"project\"}" + std::string(present & 1 ? ",{\"ref\":\"m.t\"}" : "") + "]}\n");
		runs[k] = build(w, {}, [&](Inv const& q) { Beh b; if(q.mode() == "get_tags") { b.set_out = true; b.out = k ? "" : rec.dump(false); } return b; });
		got[k] = compilations(runs[k]);
		ok24(ended(runs[k]) && runs[k].exit_code == 0, "failed", "the build failed", w, runs[k]);
		int n = 0;
		for(auto& q: runs[k].invs) if(q.mode() == "get_tags")
		{
			++n;
			ok24(norm(q.src()) == "m.m" && q.j.at("compiler_cfg").dump() == J::obj({{"k", 2}}).dump() && where(w, q) == norm(w.abs(self ? "m.m" : "y.rcp")), "query", "the wrong question was asked", w, runs[k]);
		}
		ok24(n == 1, "queries", "the recipe was asked for tags " + std::to_string(n) + " times", w, runs[k]);
	}
	sample(runs[0].dump());
	ok24(got[0] == got[1], "tags", "tags reported by the recipe do not count like tags in the file " + file.dump() + " / " + rec.dump() + ":" + cdiff(got[1], got[0]), w, runs[0]);
}
static void failingTags(World& w, Answer const& a)
{
	for(auto n: {"mkdir.rcp", "x.rcp"}) w.put(n, "r\n", true);
	writeCfg(w, "", cfgOf(recipeCfg("x.rcp", J::obj({{"k", 1}}), 1)));
	w.put("a.x", "#@{\"target\":{\"name\":\"a.t\"}}\n");
	w.put("b.x", "#@{\"target\":{\"name\":\"b.t\"}}\n");
	auto r = build(w, {}, [&](Inv const& i) { return i.mode() == "get_tags" && norm(i.src()) == "b.x" ? a.b : Beh{}; });
	if(a.fails)
	{
		noBuild(w, r, "a recipe that cannot report tags (" + a.name + ")");
		ok24(r.err.find("b.x") != std::string::npos, "which", "the message does not name the file: " + a.name, w, r);
	}
	else ok24(ended(r) && r.exit_code == 0 && r.compiled() == std::multiset<std::string>({".", "a.x", "b.x"}), "failed", "the build failed although the tags are well formed: " + a.name, w, r);
}
static void use(World& w, size_t i)   // values of use_get_tags and of the recipe
{
	Strs v{"", "0", "1", "2", "-1"};
	auto c = recipeCfg("x.rcp");
	if(!v[i].empty()) c.set("use_get_tags", J(atoi(v[i].c_str())));
	for(auto n: {"mkdir.rcp", "x.rcp"}) w.put(n, "r\n", true);
	writeCfg(w, "", cfgOf(c));
	w.put("a.x", "#@{\"target\":{\"name\":\"a.t\"}}\n");
	w.put("d/b.x", "#@{\"target\":{\"name\":\"b.t\"}}\n");
	auto r = build(w, {}, {});
	int n = 0;
	for(auto& q: r.invs) if(q.mode() == "get_tags") ++n;
	ok24(ended(r) && r.exit_code == 0 && n == (atoi(v[i].c_str()) ? 2 : 0), "queries", "use_get_tags=" + v[i] + ": asked " + std::to_string(n) + " times", w, r);
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g != "C24") return v;
		batch(v, "lookup", 4 * 5 * 5 * 2 * 2 * 2, 32, lookup);
		auto A = std::make_shared<std::vector<Answer>>(answers());
		size_t n = A->size();
		batch(v, "configure", n * n, 16, [A, n](World& w, size_t i) { configure(w, (*A)[i % 3 == 0 ? i % n : 0], (*A)[i % n], (*A)[i / n]); });
		batch(v, "configure-dir", n, 4, [A](World& w, size_t i) { configure(w, (*A)[i], (*A)[0], (*A)[3]); });
		if(thorough()) batch(v, "configure3", n * n * n, 64, [A, n](World& w, size_t i) { configure(w, (*A)[i % n], (*A)[i / n % n], (*A)[i / n / n]); });
		auto o = overlays().size();
		batch(v, "override", o * o * 4 * 2 * 2 * 2, 64, overridden);
		batch(v, "tags", 32 * 32 * 2, 64, tagged);
		batch(v, "failing-tags", n, 4, [A](World& w, size_t i) { failingTags(w, (*A)[i]); });
		batch(v, "use", 5, 1, use);
		return v;
	});
}
