// The command line (C20): every option and value, sequences of options, list values, everything that is not an option.
#include "harness/common.h"

static Src src(std::string p, Strs t, std::vector<Edge> e = {}) { Src s; s.path = p; s.targets = t; s.edges = e; return s; }
static J config(int k)
{
	J l = J::obj({{"x", J::obj({{"loader", "extension"}, {"compiler", recipeCfg("x.rcp", J::obj({{"k", k}}))}})}});
	return J::obj({{"dir_compiler", recipeCfg("mkdir.rcp")}, {"source_file_info_loaders", l},
	               {"source_tree_loader", J::obj({{"file_info_loaders", J::obj({{".x", "x"}})}, {"fullpath_input_filter", J::arr()}, {"input_filter", J::arr({"^\\.", "^__", "^p$", "_targets$", "^out$"})}, {"recursive", 1}})}});
}
static std::string wrap(J const& c) { return J::obj({{"maikeconfig", c}}).dump(false); }
static Strs const kAll{"--help", "--version", "--about", "--print-dep-graph", "--print-dep-graph-inv", "--dump-database", "--list-targets", "--list-external-deps", "--build-id", "--targets", "--configfiles", "--config-default", "--configdump", "--source-dir", "--target-dir", "--num-workers", "--dry-run", "--force-rebuild", "--start-time", "--log-output-format", "--log-level"};

static void project(World& w)
{
	for(std::string pre: {"", "p/"})
	{
		Spec sp;
		sp.cfg = config(pre.empty() ? 1 : 5);
		sp.recipes = {{"mkdir.rcp", "dir"}, {"x.rcp", "x"}};
		sp.srcdir = pre.empty() ? "." : "p";
		sp.srcs = {src("a.x", {"a.t"}), src("b.x", {"b.t"}, {{'D', "a.t", "", {}}}), src("d/c.x", {"c.t"})};
		materialise(w, sp);
	}
	w.put(w.base + "/c2.json", wrap(config(2)));
	w.put(w.base + "/c3.json", wrap(J::obj({{"source_file_info_loaders", J::obj({{"x", J::obj({{"loader", "extension"}, {"compiler", recipeCfg("x.rcp", J::obj({{"k", 3}}))}})}})}})));
}

struct Exp
{
	std::string mode{"build"}, id, start, sd{"."}, td, fmt{"plain_text"}, level{"source_file_info"}, outfile;
	std::set<std::string> targets;
	bool dry{false}, force{false};
	int workers{0}, k{0};
};
struct Opt { std::string arg; std::function<void(Exp&)> set; };

static std::string const kId = "00112233445566778899aAbBcCdDeEfF00112233445566778899AABBCCDDEEFF";
static std::string low(std::string s) { for(auto& c: s) c = tolower(c); return s; }

static std::vector<Opt> opts(World& w)
{
	auto mode = [](std::string m) { return [m](Exp& e) { static Strs const rank{"build", "graph", "list", "configdump", "about", "version", "help"}; auto r = [](std::string const& x) { return std::find(rank.begin(), rank.end(), x) - rank.begin(); }; if(r(m) > r(e.mode)) e.mode = m; }; };
	return {
		{"--build-id=" + kId, [](Exp& e) { e.id = low(kId); }},
		{"--start-time=1234567890", [](Exp& e) { e.start = "1234567890"; }},
		{"--targets=b.t", [](Exp& e) { e.targets = {"b.t"}; }},
		{"--targets=d/c.t,a.t", [](Exp& e) { e.targets = {"d/c.t", "a.t"}; }},
		{"--source-dir=p", [](Exp& e) { e.sd = "p"; }},
		{"--target-dir=out", [](Exp& e) { e.td = "out"; }},
		{"--num-workers=3", [](Exp& e) { e.workers = 3; }},
		{"--dry-run", [](Exp& e) { e.dry = true; }},
		{"--force-rebuild", [](Exp& e) { e.force = true; }},
		{"--log-output-format=ansi_term", [](Exp& e) { e.fmt = "ansi_term"; }},
		{"--log-level=errors", [](Exp& e) { e.level = "errors"; }},
		{"--log-level=compilation_command", [](Exp& e) { e.level = "compilation_command"; }},
		{"--configfiles=" + w.base + "/c2.json", [](Exp& e) { e.k = 2; }},
		{"--configfiles=" + w.base + "/c2.json," + w.base + "/c3.json", [](Exp& e) { e.k = 3; }},
		{"--list-targets", mode("list")},
		{"--print-dep-graph", mode("graph")},
		{"--configdump", mode("configdump")},
		{"--help", mode("help")},
		{"--version", mode("version")},
		{"--about", mode("about")},
	};
}
static std::string nameOf(std::string const& a) { return a.substr(0, a.find('=')); }

static void judge(World& w, Exp e, Run const& r)
{
	auto ok = [&](bool c, std::string const& tag, std::string const& msg) { expect("C20", c, tag, msg, w, &r); };
	ok(ended(r), "not-ended", "maike did not end: " + r.msg);
	ok(r.exit_code == 0, "refused", "a valid command line was refused");
	if(e.td.empty()) e.td = e.sd == "." ? "__targets" : "p_targets";
	auto at = [&](std::string const& p) { return e.sd == "." ? p : "p/" + p; };
	auto text = e.outfile.empty() ? r.out : w.get(e.outfile);
	if(e.mode != "build")
	{
		ok(r.compiles().empty(), "compiled", "something was built by an option that only prints");
		if(e.mode == "help") { for(auto& o: kAll) ok(text.find(o) != std::string::npos, "help", "the help text does not mention " + o); ok(r.invs.empty(), "invoked", "a recipe was started"); }
		if(e.mode == "version" || e.mode == "about") { ok(text.find("# Maike ") != std::string::npos && r.invs.empty(), "version", "no version information"); ok((text.find("Build info") != std::string::npos) == (e.mode == "about"), "about", "the wrong information was printed"); }
		if(e.mode == "list") for(auto t: {"a.t", "b.t", "d/c.t"}) ok(("\n" + text).find(std::string("\n") + t + "\n") != std::string::npos, "list", std::string("target ") + t + " is not listed");
		if(e.mode == "graph") ok(text.find("digraph") != std::string::npos && text.find("\"" + at("b.x") + "\" -> \"" + e.td + "/a.t\"") != std::string::npos, "graph", "the dependency graph was not printed");
		if(e.mode == "configdump")
		{
			J j;
			int k = e.k ? e.k : e.sd == "." ? 1 : 5;
			ok(parseJson(text, j) && j.find("maikeconfig"), "configdump", "the configuration was not dumped");
			ok(j.at("maikeconfig").at("source_file_info_loaders").at("x").at("compiler").at("config").at("k") == J(k), "config", "the wrong configuration was used");
			ok(r.invs.empty(), "invoked", "a recipe was started");
		}
		return;
	}
	// which tasks
	std::multiset<std::string> want;
	std::set<std::string> need{".", "d", "a.x", "b.x", "d/c.x"};
	if(!e.targets.empty())
	{
		need = {"."};
		for(auto& t: e.targets) { if(t == "a.t") need.insert("a.x"); if(t == "b.t") { need.insert("a.x"); need.insert("b.x"); } if(t == "d/c.t") { need.insert("d"); need.insert("d/c.x"); } }
	}
	bool built = e.sd == "." && e.td == "__targets";
	for(auto& n: need) if(!built || e.force || n == "a.x" || n == "b.x") want.insert(norm(at(n)));
	if(e.dry) { ok(r.compiles().empty(), "dry", "a recipe was run although --dry-run was given"); }
	else ok(r.compiled() == want, "tasks", "the tasks run are wrong:" + cdiff(want, r.compiled()));
	int k = e.k ? e.k : e.sd == "." ? 1 : 5;
	for(auto c: r.compiles())
	{
		auto& bi = c->j.at("build_info");
		if(!e.id.empty()) ok(bi.at("build_id").s == e.id, "build-id", "the build id is " + bi.at("build_id").s);
		if(!e.start.empty()) ok(bi.at("start_time").dump() == e.start, "start-time", "the start time is " + bi.at("start_time").dump());
		ok(norm(bi.at("source_dir").s) == e.sd, "source-dir", "the source directory is " + bi.at("source_dir").s);
		ok(norm(bi.at("target_dir").s) == e.td, "target-dir", "the target directory is " + bi.at("target_dir").s);
		ok(c->j.at("log_format").s == e.fmt, "log-format", "the log format is " + c->j.at("log_format").s);
		if(norm(c->src()).find(".x") != std::string::npos) ok(c->j.at("compiler_cfg").at("k") == J(k), "config", "the wrong configuration was used");
	}
	if(e.workers) ok(r.out.find("with " + std::to_string(e.workers) + " workers") != std::string::npos, "workers", "the number of workers is wrong");
	auto body = r.out.substr(std::min(r.out.size(), r.out.rfind("\n#\n") + 3));
	ok(body.empty() == (e.level == "errors"), "log-level", "the wrong things were logged");
	if(e.level != "errors") ok((body.find("'compile'") != std::string::npos) == (e.level == "compilation_command"), "log-level", "the wrong things were logged");
}

static void prepare(World& w) { project(w); build(w, {}, {}); w.touch("a.x"); }

static void runSeq(World& w, std::vector<int> const& seq)
{
	auto o = opts(w);
	std::set<std::string> names;
	for(int i: seq) if(!names.insert(nameOf(o[i].arg)).second) { --mc::currentResult()->inner_states; return; }
	prepare(w);
	Exp e;
	Strs args;
	for(int i: seq) { args.push_back(o[i].arg); o[i].set(e); }
	BuildOpt bo;
	bo.workers = 0;
	auto r = build(w, args, {}, bo);
	sample(r.dump());
	judge(w, e, r);
}

static void refused(World& w, Strs const& args, std::string const& why)
{
	project(w);
	auto before = w.snap(true);
	BuildOpt bo;
	bo.workers = 0;
	auto r = build(w, args, {}, bo);
	std::string a;
	for(auto& x: args) a += " " + x;
	expect("C20", ended(r) && r.exit_code != 0, "accepted", "accepted (" + why + "):" + a, w, &r);
	expect("C20", r.compiles().empty() && w.snap(true) == before, "built", "something was done although the command line is wrong (" + why + "):" + a, w, &r);
	expect("C20", !r.err.empty(), "silent", "no diagnostic (" + why + "):" + a, w, &r);
}

static bool noValue(std::string const& n) { return n == "--config-default" || n == "--dry-run" || n == "--force-rebuild"; }
static Strs const kNeed{"--build-id", "--targets", "--configfiles", "--source-dir", "--target-dir", "--num-workers", "--start-time", "--log-output-format", "--log-level"};

static std::vector<std::pair<Strs, std::string>> wrongLines()
{
	std::vector<std::pair<std::string, std::string>> bad;
	std::set<std::string> all(kAll.begin(), kAll.end());
	auto names = [&](std::string const& n, std::string const& why) { if(n.empty() || all.count(n)) return; bad.push_back({n, why}); bad.push_back({n + "=1", why}); bad.push_back({n + "=", why}); };
	for(auto& o: kAll)
	{
		for(size_t k = 0; k < o.size(); ++k)
		{
			names(o.substr(0, k), "beginning of an option");
			names(o.substr(k), "end of an option");
			auto c = o;
			c[k] = c[k] == 'x' ? 'y' : 'x';
			names(c, "one letter changed");
			c = o;
			c.erase(k, 1);
			names(c, "one letter missing");
			c = o;
			c[k] = toupper(c[k]);
			names(c, "upper case");
		}
		names(o + "s", "one letter added");
		names(o + " ", "blank added");
		names(" " + o, "blank added");
		if(noValue(o)) for(auto v: {"1", "0", "true", " ", "="}) bad.push_back({o + "=" + v, "value given to an option without value"});
	}
	for(auto& o: kNeed) { bad.push_back({o, "value missing"}); bad.push_back({o + "=", "value missing"}); }
	bad.push_back({"=", "no option"});
	bad.push_back({"=1", "no option"});
	bad.push_back({"a.t", "no option"});
	for(auto v: {"0", "-1", "x", "3x", "1.5", "1e3", "99999999999", "2147483648", "99999999999999999999", "--", "auto1", "aut", "Auto", "3 ", "3,4", "0x"}) bad.push_back({std::string("--num-workers=") + v, "malformed number"});
	for(auto v: {"x", "5x", "1.5", "99999999999999999999", "1e9", "--", "5 ", "5,6", "2020-01-01", "now"}) bad.push_back({std::string("--start-time=") + v, "malformed number"});
	std::string z(64, '0');
	for(size_t n = 1; n < 64; ++n) bad.push_back({"--build-id=" + z.substr(0, n), "build id too short"});
	bad.push_back({"--build-id=" + z + "0", "build id too long"});
	bad.push_back({"--build-id=" + z + "x", "build id too long"});
	for(size_t k = 0; k < 64; ++k) for(char c: {'g', ' ', '/', ':', '@', '`', 'G'}) { auto s = z; s[k] = c; bad.push_back({"--build-id=" + s, "build id with a character that is no digit"}); }
	for(std::string good: {"plain_text", "ansi_term"}) { for(size_t k = 1; k < good.size(); ++k) bad.push_back({"--log-output-format=" + good.substr(0, k), "no log format"}); bad.push_back({"--log-output-format=" + good + "x", "no log format"}); bad.push_back({"--log-output-format=P" + good, "no log format"}); }
	for(std::string good: {"errors", "source_file_info", "compilation_command"}) { for(size_t k = 1; k < good.size(); ++k) bad.push_back({"--log-level=" + good.substr(0, k), "no log level"}); bad.push_back({"--log-level=" + good + "x", "no log level"}); }
	std::vector<std::pair<Strs, std::string>> r;
	std::set<std::string> seen;
	for(auto& b: bad) if(seen.insert(b.first).second) { r.push_back({{b.first}, b.second}); r.push_back({{"--log-level=errors", b.first}, b.second}); r.push_back({{b.first, "--force-rebuild"}, b.second}); }
	return r;
}

// reference for list values
static Strs split(std::string const& s)
{
	Strs r;
	std::string cur;
	for(size_t k = 0; k < s.size(); ++k)
	{
		if(s[k] == '\\' && k + 1 < s.size()) { cur += s[++k]; continue; }
		if(s[k] == '\\') continue;
		if(s[k] == ',') { r.push_back(cur); cur.clear(); continue; }
		cur += s[k];
	}
	if(!cur.empty() || r.empty() || s.back() != ',') r.push_back(cur);
	return r;
}
static std::string word(std::string const& alpha, size_t n, size_t i) { std::string s; for(size_t k = 0; k < n; ++k, i /= alpha.size()) s += alpha[i % alpha.size()]; return s; }
static Strs words(std::string const& alpha, size_t lo, size_t hi) { Strs r; for(size_t n = lo; n <= hi; ++n) for(size_t i = 0; i < ipow(alpha.size(), n); ++i) r.push_back(word(alpha, n, i)); return r; }

static void listTargets(World& w, std::string const& value)
{
	auto tok = split(value);
	for(auto& t: tok) if(t.empty()) { --mc::currentResult()->inner_states; return; }
	Spec sp;
	sp.cfg = config(1);
	sp.recipes = {{"mkdir.rcp", "dir"}, {"x.rcp", "x"}};
	std::map<std::string, std::string> owner;
	int k = 0;
	for(auto& n: words("a,\\", 1, 3)) { auto p = "s" + std::to_string(k++) + ".x"; sp.srcs.push_back(src(p, {n})); owner[n] = p; }
	materialise(w, sp);
	std::multiset<std::string> want{"."};
	bool known = true;
	std::set<std::string> uniq(tok.begin(), tok.end());
	for(auto& t: uniq) if(owner.count(t)) want.insert(owner[t]); else known = false;
	BuildOpt bo;
	bo.workers = 0;
	auto r = build(w, {"--targets=" + value}, {}, bo);
	sample(r.dump());
	if(known)
	{
		expect("C20", ended(r) && r.exit_code == 0, "list-refused", "--targets=" + value + " was refused", w, &r);
		expect("C20", r.compiled() == want, "list-tasks", "--targets=" + value + " builds the wrong targets:" + cdiff(want, r.compiled()), w, &r);
	}
	else expect("C20", ended(r) && r.exit_code != 0 && r.compiles().empty(), "list-accepted", "--targets=" + value + " was accepted", w, &r);
}

static void listConfigs(World& w, std::string const& value)
{
	auto tok = split(value);
	for(auto& t: tok) if(t.empty()) { --mc::currentResult()->inner_states; return; }
	std::set<std::string> have;
	for(auto& n: words("a,\\", 1, 2)) { 
		J c = config(1);
		auto ld = [&n]() { return J::obj({{"loader", "extension"}, {"compiler", recipeCfg("x.rcp", J::obj({{"last", n}}))}}); };
		c.set("source_file_info_loaders", J::obj({{n, ld()}, {"L", ld()}}));
		w.put(n, wrap(c));
		have.insert(n);
	}
	for(auto& t: tok) if(!have.count(t)) { --mc::currentResult()->inner_states; return; }
	BuildOpt bo;
	bo.workers = 0;
	auto r = build(w, {"--configfiles=" + value, "--configdump"}, {}, bo);
	expect("C20", ended(r) && r.exit_code == 0, "list-refused", "--configfiles=" + value + " was refused", w, &r);
	J j;
	expect("C20", parseJson(r.out, j), "list-dump", "no configuration dumped", w, &r);
	std::set<std::string> want(tok.begin(), tok.end()), got;
	want.insert("L");
	auto& l = j.at("maikeconfig").at("source_file_info_loaders");
	for(auto& kv: l.o) got.insert(kv.first);
	expect("C20", want == got, "list-configs", "--configfiles=" + value + " reads the wrong files", w, &r);
	expect("C20", l.at("L").at("compiler").at("config").at("last").s == tok.back(), "list-order", "--configfiles=" + value + ": the last file does not win", w, &r);
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g != "C20") return v;
		auto seqs = std::make_shared<std::vector<std::vector<int>>>();
		int n = 20;
		for(int a = 0; a < n; ++a) seqs->push_back({a});
		for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) if(a != b) seqs->push_back({a, b});
		for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) for(int c = 0; c < n; ++c) if(a != b && b != c && a != c) seqs->push_back({a, b, c});
		std::vector<int> p{0, 1, 2, 5, 8, 9};
		do seqs->push_back(p); while(std::next_permutation(p.begin(), p.end()));
		p = {3, 4, 6, 9, 11, 13};
		do seqs->push_back(p); while(std::next_permutation(p.begin(), p.end()));
		if(thorough()) for(int a = 0; a < n; ++a) for(int b = 0; b < n; ++b) for(int c = 0; c < n; ++c) for(int d = 0; d < n; ++d) if(a != b && b != c && a != c && d != a && d != b && d != c) seqs->push_back({a, b, c, d});
		batch(v, "sequences", seqs->size(), 64, [seqs](World& w, size_t i) { runSeq(w, (*seqs)[i]); });
		auto wrong = std::make_shared<std::vector<std::pair<Strs, std::string>>>(wrongLines());
		batch(v, "wrong", wrong->size(), 128, [wrong](World& w, size_t i) { refused(w, (*wrong)[i].first, (*wrong)[i].second); });
		auto lt = std::make_shared<Strs>(words("a,\\", 1, thorough() ? 7 : 6));
		batch(v, "targets", lt->size(), 32, [lt](World& w, size_t i) { listTargets(w, (*lt)[i]); });
		auto lc = std::make_shared<Strs>(words("a,\\", 1, thorough() ? 8 : 6));
		batch(v, "configs", lc->size(), 64, [lc](World& w, size_t i) { listConfigs(w, (*lc)[i]); });
		// queries that take effect by printing instead of building
		Strs q{"--print-dep-graph-inv", "--dump-database", "--list-external-deps"};
		batch(v, "query", q.size(), 1, [q](World& w, size_t i) {
			project(w);
			auto r = build(w, {q[i]}, {});
			expect("C20", ended(r) && r.compiles().empty(), "unimplemented", q[i] + " is accepted but starts a build instead of printing what it is documented to print", w, &r);
		});
		// values
		std::vector<std::pair<std::string, std::function<void(Exp&)>>> vals;
		for(int k: {1, 2, 5, 16, 40}) vals.push_back({"--num-workers=" + std::to_string(k), [k](Exp& e) { e.workers = k; }});
		vals.push_back({"--num-workers=auto", [](Exp&) {}});
		for(std::string k: {"0", "1", "59", "1000000000", "2147483647", "2147483648", "4102444800", "-1"}) vals.push_back({"--start-time=" + k, [k](Exp& e) { e.start = k; }});
		for(size_t k = 0; k < 64; ++k) for(char c: {'1', '9', 'a', 'f', 'A', 'F'}) { std::string s(64, '0'); s[k] = c; vals.push_back({"--build-id=" + s, [s](Exp& e) { e.id = low(s); }}); }
		for(std::string k: {"plain_text", "ansi_term"}) vals.push_back({"--log-output-format=" + k, [k](Exp& e) { e.fmt = k; }});
		for(std::string k: {"errors", "source_file_info", "compilation_command"}) vals.push_back({"--log-level=" + k, [k](Exp& e) { e.level = k; }});
		for(std::string k: {"help", "version", "about"}) vals.push_back({"--" + k + "=of", [k](Exp& e) { e.mode = k; e.outfile = "of"; }});
		vals.push_back({"--list-targets=of", [](Exp& e) { e.mode = "list"; e.outfile = "of"; }});
		vals.push_back({"--print-dep-graph=of", [](Exp& e) { e.mode = "graph"; e.outfile = "of"; }});
		vals.push_back({"--configdump=of", [](Exp& e) { e.mode = "configdump"; e.outfile = "of"; }});
		batch(v, "values", vals.size(), 32, [vals](World& w, size_t i) {
			prepare(w);
			Exp e;
			vals[i].second(e);
			BuildOpt bo;
			bo.workers = 0;
			auto r = build(w, {vals[i].first}, {}, bo);
			judge(w, e, r);
		});
		return v;
	});
}
