// Configuration files (C14): merging, dumping, unusable configurations.
#include "harness/common.h"

static J real(double d) { J x; x.t = J::Real; x.d = d; return x; }
static J nul() { return J(); }

// ---- reference
static J canonCompiler(J const& c)
{
	return J::obj({{"recipe", c.has("recipe") ? c.at("recipe") : J("")}, {"config", c.at("config")}, {"use_get_tags", J(c.has("use_get_tags") && c.at("use_get_tags").i != 0 ? 1 : 0)}});
}
static J canonLoader(J const& l)
{
	J r = J::obj({{"loader", l.at("loader")}, {"compiler", canonCompiler(l.at("compiler"))}});
	auto c = l.find("config");
	if(l.at("loader").s == "cxx_src_loader") r.set("config", J::obj({{"generated_includes", c ? c->has("generated_includes") ? c->at("generated_includes") : J::arr() : J::arr({".*\\.gen\\.hpp$"})}}));
	if(l.at("loader").s == "generic") r.set("config", J::obj({{"target_filename_ext", c ? c->at("target_filename_ext") : J("")}, {"filename_ext_replacement_mode", c && c->has("filename_ext_replacement_mode") ? c->at("filename_ext_replacement_mode") : J("append")}}));
	return r;
}
static J canon(J const& m)
{
	auto& t = m.at("source_tree_loader");
	J l = J::obj();
	for(auto& kv: m.at("source_file_info_loaders").o) l.set(kv.first, canonLoader(kv.second));
	return J::obj({{"dir_compiler", canonCompiler(m.at("dir_compiler"))}, {"source_file_info_loaders", l},
	               {"source_tree_loader", J::obj({{"file_info_loaders", t.at("file_info_loaders")}, {"recursive", J(t.at("recursive").i != 0 ? 1 : 0)}, {"input_filter", t.at("input_filter")}, {"fullpath_input_filter", t.at("fullpath_input_filter")}})}});
}
static J wrapped(J c) { return J::obj({{"maikeconfig", c}}); }

// what maike complains about, without the echo of the command line and the progress notes
static std::string complaints(std::string const& err)
{
	std::string r, l;
	std::istringstream s(err);
	while(std::getline(s, l)) if(l.compare(0, 2, "--") && l.compare(0, 1, "#") && !l.empty()) r += l + "\n";
	return r;
}
static Run dumpOf(World& w, Strs const& files)
{
	std::string a;
	for(auto& f: files) a += (a.empty() ? "" : ",") + f;
	BuildOpt bo;
	bo.workers = 0;
	return build(w, {"--configfiles=" + a, "--configdump"}, {}, bo);
}
static void usable(World& w, Run const& r, J const& want, std::string const& what)
{
	expect("C14", ended(r) && r.exit_code == 0, "failed", what + ": dumping the configuration failed", w, &r);
	expect("C14", complaints(r.err).empty(), "complaint", what + ": a complaint about a usable configuration", w, &r);
	J j;
	expect("C14", parseJson(r.out, j) && j.find("maikeconfig"), "no-dump", what + ": no configuration was dumped", w, &r);
	auto got = j.at("maikeconfig");
	// the options of loaders that have none are not compared
	for(auto& kv: got.o) if(kv.first == "source_file_info_loaders") for(auto& l: kv.second.o) { auto n = l.second.at("loader").s; if(n != "cxx_src_loader" && n != "generic") for(size_t k = 0; k < l.second.o.size(); ++k) if(l.second.o[k].first == "config") l.second.o.erase(l.second.o.begin() + k--); }
	expect("C14", got.dump() == want.dump(), "merge", what + ": the configuration is\n" + got.dump() + "\ninstead of\n" + want.dump(), w, &r);
}

// merge a list of files; compares with the reference and dumps the dump again
static void mergeFiles(World& w, std::vector<J> const& files, bool again)
{
	Strs names;
	J m = J::obj();
	bool ok = true;
	std::string what;
	for(size_t k = 0; k < files.size(); ++k)
	{
		auto n = "f" + std::to_string(k) + ".json";
		w.put(n, files[k].dump(false));
		names.push_back(n);
		ok = merge(m, files[k]) && ok;
		what += (k ? " + " : "") + files[k].dump(false);
	}
	auto r = dumpOf(w, names);
	sample(what);
	if(!ok) { expect("C14", ended(r) && (r.exit_code != 0 || !complaints(r.err).empty()), "silent", what + ": values of different kinds were combined without a complaint", w, &r); return; }
	usable(w, r, canon(m.at("maikeconfig")), what);
	if(!again) return;
	w.put("d.json", r.out);
	auto r2 = dumpOf(w, {"d.json"});
	expect("C14", ended(r2) && r2.exit_code == 0 && complaints(r2.err).empty() && r2.out == r.out, "round-trip", what + ": the dumped configuration is not read back as it was: " + r.out, w, &r2);
}

static std::vector<J> values()
{
	return {J("<absent>"), nul(), J::boolean(true), J::boolean(false), J(1), J(2), real(1.5), real(-2.25), J("s"), J(""), J::arr(), J::arr({1}), J::arr({"x", J::arr({2})}), J::obj(), J::obj({{"a", 1}}), J::obj({{"a", 2}, {"b", J::arr({1})}}), J::obj({{"a", J::obj({{"c", J::arr({3})}})}}), J::obj({{"b", J::arr({2, 2})}})};
}
static J base(J cfg = J::obj())
{
	J l = J::obj({{"x", J::obj({{"loader", "extension"}, {"compiler", recipeCfg("x.rcp", cfg)}})}});
	return J::obj({{"dir_compiler", recipeCfg("mkdir.rcp")}, {"source_file_info_loaders", l},
	               {"source_tree_loader", J::obj({{"file_info_loaders", J::obj({{".x", "x"}})}, {"fullpath_input_filter", J::arr()}, {"input_filter", J::arr({"^\\.", "^__"})}, {"recursive", 1}})}});
}
static J frag(J cfg) { return J::obj({{"source_file_info_loaders", J::obj({{"x", J::obj({{"compiler", J::obj({{"config", cfg}})}})}})}}); }
static J keys(std::vector<std::string> const& k, std::vector<J> const& v) { J r = J::obj(); for(size_t i = 0; i < k.size(); ++i) if(!(v[i].t == J::Str && v[i].s == "<absent>")) r.set(k[i], v[i]); return r; }

// parts of a configuration, each a file of its own
static std::vector<J> fragments()
{
	auto tree = [](std::string const& k, J v) { return J::obj({{"source_tree_loader", J::obj({{k, v}})}}); };
	auto loader = [](std::string const& n, J v) { return J::obj({{"source_file_info_loaders", J::obj({{n, v}})}}); };
	std::vector<J> r{
		tree("recursive", 0), tree("recursive", 7), tree("input_filter", J::arr({"a"})), tree("input_filter", J::arr({"b", "a"})), tree("fullpath_input_filter", J::arr({"/c$"})),
		tree("file_info_loaders", J::obj({{".y", "x"}})), tree("file_info_loaders", J::obj({{".x", "y"}, {".z", "y"}})),
		J::obj({{"dir_compiler", J::obj({{"recipe", "other.rcp"}})}}), J::obj({{"dir_compiler", J::obj({{"use_get_tags", 1}, {"config", J::obj({{"q", J::arr({1})}})}})}}),
		loader("x", J::obj({{"loader", "generic"}, {"config", J::obj({{"target_filename_ext", ".o"}})}})), loader("x", J::obj({{"loader", "lib"}})),
		loader("x", J::obj({{"loader", "cxx_src_loader"}})), loader("x", J::obj({{"config", J::obj({{"target_filename_ext", ""}, {"filename_ext_replacement_mode", "replace"}, {"generated_includes", J::arr({"g$"})}})}})),
		loader("x", J::obj({{"compiler", J::obj({{"use_get_tags", 1}})}})), loader("x", J::obj({{"compiler", J::obj({{"recipe", ""}, {"use_get_tags", 0}})}})),
		loader("y", J::obj({{"loader", "app"}, {"compiler", J::obj({{"config", J::obj({{"w", "v"}})}})}})), loader("y", J::obj({{"loader", "maikerule"}, {"compiler", J::obj({{"config", J::obj({{"w", "u"}})}, {"recipe", "m.rcp"}})}})),
		loader("c", J::obj({{"loader", "cxx_src_loader"}, {"compiler", J::obj({{"config", J::obj()}})}, {"config", J::obj({{"generated_includes", J::arr({"h$", "\\.i$"})}})}})), loader("c", J::obj({{"loader", "cxx_src_loader"}, {"compiler", J::obj({{"config", J::obj()}})}, {"config", J::obj()}})),
		J::obj(),
	};
	return r;
}

static void unusable(World& w, std::string const& text, std::string const& why)
{
	w.put("c.json", text);
	auto r = dumpOf(w, {"c.json"});
	expect("C14", ended(r) && (r.exit_code != 0 || !complaints(r.err).empty()), "silent", "a configuration that cannot be used was not reported (" + why + "): " + text, w, &r);
}
static void mk(World& w, std::string const& n) { w.put(n, "recipe\n", true); }

static J full()
{
	J b = base(J::obj({{"k", J::arr({"v", J(1)})}}));
	for(auto& p: b.o) if(p.first == "source_file_info_loaders")
	{
		p.second.set("c", J::obj({{"loader", "cxx_src_loader"}, {"compiler", recipeCfg("x.rcp", J::obj(), 0)}, {"config", J::obj({{"generated_includes", J::arr({"g$"})}})}}));
		p.second.set("g", J::obj({{"loader", "generic"}, {"compiler", recipeCfg("x.rcp", J::obj(), 1)}, {"config", J::obj({{"target_filename_ext", ".o"}, {"filename_ext_replacement_mode", "replace"}})}}));
	}
	return wrapped(b);
}
// every node of a document: path, required type ("" = free), whether it may be left out
struct Node { Strs path; bool optional; bool open; };
static void nodes(J const& j, Strs p, std::vector<Node>& out)
{
	auto last = p.empty() ? "" : p.back();
	auto up = p.size() > 1 ? p[p.size() - 2] : "";
	if(!p.empty())
	{
		bool in_list = up == "file_info_loaders" || up == "source_file_info_loaders";
		bool optional = last == "recipe" || last == "use_get_tags" || last == "generated_includes" || last == "filename_ext_replacement_mode" || (last == "config" && up != "compiler" && up != "dir_compiler") || in_list;
		out.push_back({p, optional, false});
	}
	if(last == "config" && (up == "compiler" || up == "dir_compiler")) return;
	if(j.t == J::Obj) for(auto& kv: j.o) { auto q = p; q.push_back(kv.first); nodes(kv.second, q, out); }
}
static void edit(J& j, Strs const& p, size_t k, J const* v)
{
	for(size_t i = 0; i < j.o.size(); ++i)
		if(j.o[i].first == p[k])
		{
			if(k + 1 < p.size()) edit(j.o[i].second, p, k + 1, v);
			else if(v) j.o[i].second = *v;
			else j.o.erase(j.o.begin() + i);
			return;
		}
}
static J const& look(J const& j, Strs const& p) { J const* x = &j; for(auto& k: p) x = &x->at(k); return *x; }

// the same build from a configuration and from its dump
static void sameBuild(World& w, J const& cfg)
{
	Spec sp;
	sp.cfg = cfg;
	auto prep = [&](std::string const& text) {
		w.reset();
		for(auto n: {"x.rcp", "mkdir.rcp", "other.rcp", "m.rcp"}) mk(w, n);
		w.put("maikeconfig.json", text);
		w.put("a.x", "//@{\"target\":{\"name\":\"a.t\"}}\n//@\n#include \"z.g\"\n");
		w.put("z.g", "z\n");
		w.put("d/b.y", "{\"target\":{\"name\":\"b.t\"}}\n");
		BuildOpt bo;
		return build(w, {"--build-id=" + std::string(64, '0'), "--start-time=0"}, {}, bo);
	};
	auto r1 = prep(wrapped(cfg).dump(false));
	auto d = build(w, {"--configdump"}, {}, BuildOpt{});
	auto r2 = prep(d.out);
	auto inv = [](Run const& r) { std::multiset<std::string> s; for(auto& i: r.invs) s.insert(i.path + " " + i.mode() + " " + i.j.dump()); return s; };
	expect("C14", ended(r1) && ended(r2) && r1.exit_code == r2.exit_code && inv(r1) == inv(r2), "dump-build", "a build with the dumped configuration differs:\n" + d.out + "\n" + r1.dump() + cdiff(inv(r1), inv(r2)), w, &r2);
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g != "C14") return v;
		auto V = values();
		size_t n = V.size();
		batch(v, "one-key", ipow(n, 3), 128, [V, n](World& w, size_t i) {
			mergeFiles(w, {wrapped(base(keys({"k"}, {V[i % n]}))), wrapped(frag(keys({"k"}, {V[i / n % n]}))), wrapped(frag(keys({"k"}, {V[i / n / n]})))}, false);
		});
		std::vector<J> S;
		for(size_t k: thorough() ? std::vector<size_t>{0, 1, 2, 3, 4, 6, 8, 10, 11, 12, 13, 14, 15, 16, 17} : std::vector<size_t>{0, 2, 4, 8, 11, 12, 14, 15}) S.push_back(V[k]);
		batch(v, "two-keys", ipow(S.size(), 4), 128, [S](World& w, size_t i) {
			size_t n = S.size();
			mergeFiles(w, {wrapped(base(keys({"k", "m"}, {S[i % n], S[i / n % n]}))), wrapped(frag(keys({"m", "k"}, {S[i / n / n % n], S[i / n / n / n]})))}, true);
		});
		// nested documents of depth three
		std::vector<J> D;
		for(auto& x: std::vector<J>{J("<absent>"), J::obj(), J(1), J::arr({1}), J::obj({{"c", 1}}), J::obj({{"c", 2}, {"d", J::arr({7})}}), J::obj({{"d", J::arr({8, J::obj({{"c", 1}})})}})})
			for(auto& y: std::vector<J>{J("<absent>"), J("s"), J::obj({{"c", J::arr({9})}})})
				D.push_back(J::obj({{"n", keys({"p", "q"}, {x, y})}}));
		batch(v, "nested", ipow(D.size(), 3), 128, [D](World& w, size_t i) { size_t n = D.size(); mergeFiles(w, {wrapped(base(D[i % n])), wrapped(frag(D[i / n % n])), wrapped(frag(D[i / n / n]))}, false); });
		auto F = fragments();
		size_t f = F.size();
		auto full_ = base(J::obj({{"k", 1}}));
		// the complete configuration first, in the middle or last
		auto usableSeq = [F, full_](World& w, std::vector<int> const& s) {
			std::vector<J> files;
			for(int k: s) files.push_back(wrapped(k < 0 ? full_ : F[k]));
			J m = J::obj();
			for(auto& x: files) merge(m, x);
			auto& c = m.at("maikeconfig");
			for(auto& kv: c.at("source_file_info_loaders").o) { auto p = kv.second.find("loader"); if(!p || !kv.second.has("compiler") || !kv.second.at("compiler").has("config") || (p->s == "generic" && kv.second.has("config") && !kv.second.at("config").has("target_filename_ext"))) { --mc::currentResult()->inner_states; return; } }
			mergeFiles(w, files, true);
		};
		batch(v, "fragments", f * f * 3, 32, [usableSeq, f](World& w, size_t i) { int a = i / 3 % f, b = i / 3 / f; usableSeq(w, i % 3 == 0 ? std::vector<int>{-1, a, b} : i % 3 == 1 ? std::vector<int>{a, -1, b} : std::vector<int>{a, b, -1}); });
		if(thorough()) batch(v, "fragments3", f * f * f * 2, 64, [usableSeq, f](World& w, size_t i) { int a = i / 2 % f, b = i / 2 / f % f, c = i / 2 / f / f; usableSeq(w, i % 2 ? std::vector<int>{-1, a, b, c} : std::vector<int>{a, -1, b, c}); });
		// one file only, split over several files in every way
		batch(v, "split", ipow(3, 3), 9, [full_](World& w, size_t i) {
			std::vector<J> files(3, J::obj());
			size_t q = i;
			for(auto& kv: full_.o) { files[q % 3].set(kv.first, kv.second); q /= 3; }
			for(auto& x: files) x = wrapped(x);
			mergeFiles(w, files, true);
		});
		// the built-in configuration
		batch(v, "default", 1, 1, [](World& w, size_t) {
			BuildOpt bo;
			bo.workers = 0;
			auto r = build(w, {"--config-default", "--configdump"}, {}, bo);
			w.put("d.json", r.out);
			auto r2 = dumpOf(w, {"d.json"});
			expect("C14", ended(r) && r.exit_code == 0 && !r.out.empty() && ended(r2) && r2.exit_code == 0 && complaints(r2.err).empty() && r2.out == r.out, "round-trip", "the dumped built-in configuration is not read back as it was: " + r.out + r2.out, w, &r2);
		});
		// unusable
		auto text = std::make_shared<std::string>(full().dump(false));
		batch(v, "truncated", text->size(), 64, [text](World& w, size_t i) { unusable(w, text->substr(0, i), "truncated"); });
		auto N = std::make_shared<std::vector<Node>>();
		nodes(full(), {}, *N);
		batch(v, "removed", N->size(), 8, [N](World& w, size_t i) {
			J j = full();
			auto& nd = (*N)[i];
			edit(j, nd.path, 0, nullptr);
			if(nd.optional) { if(!nd.path.empty() && nd.path.back() != "config") mergeFiles(w, {j}, true); }
			else unusable(w, j.dump(false), "a required value is missing");
		});
		std::vector<J> T{nul(), J::boolean(true), J(1), real(1.5), J("s"), J::arr({1}), J::obj({{"z", 1}})};
		batch(v, "retyped", N->size() * T.size(), 16, [N, T](World& w, size_t i) {
			J j = full();
			auto& nd = (*N)[i / T.size()];
			auto& nv = T[i % T.size()];
			auto was = look(j, nd.path);
			if(was.t == nv.t)
			{
				// same kind: judged where a value is out of range
				auto l = nd.path.back();
				if(!(was.t == J::Arr || (was.t == J::Str && (l == "loader" || l == "filename_ext_replacement_mode")) || (was.t == J::Obj && l != "config"))) { --mc::currentResult()->inner_states; return; }
				if(was.t == J::Obj && l == "file_info_loaders") { edit(j, nd.path, 0, &nv); unusable(w, j.dump(false), "wrong type"); return; }
				if(was.t == J::Obj) { --mc::currentResult()->inner_states; return; }
			}
			edit(j, nd.path, 0, &nv);
			unusable(w, j.dump(false), "wrong type");
		});
		Strs bad{"[", "\\(", "a\\{", "[z-a]", "[[:nope:]]"};
		std::vector<Strs> where{{"maikeconfig", "source_tree_loader", "input_filter"}, {"maikeconfig", "source_tree_loader", "fullpath_input_filter"}, {"maikeconfig", "source_file_info_loaders", "c", "config", "generated_includes"}};
		batch(v, "pattern", bad.size() * where.size() * 2, 4, [bad, where](World& w, size_t i) {
			J j = full();
			auto p = bad[i / 2 / where.size()];
			J a = i % 2 ? J::arr({"ok", p}) : J::arr({p});
			edit(j, where[i / 2 % where.size()], 0, &a);
			unusable(w, j.dump(false), "malformed pattern");
		});
		Strs junk{"", " ", "\n\t", "{}", "[]", "null", "1", "\"maikeconfig\"", "{\"maikeconfig\":null}", "{\"maikeconfig\":[]}", "{\"maikeconfig\":{}}", "x", "{", "}", "{\"maikeconfig\":{},\"maikeconfig\":{}}", std::string("\xff\xfe"), "{'maikeconfig':{}}", "// c\n{}"};
		batch(v, "junk", junk.size() + 1, 4, [junk](World& w, size_t i) {
			if(i < junk.size()) { unusable(w, junk[i], "no configuration"); return; }
			auto r = dumpOf(w, {"missing.json"});
			expect("C14", ended(r) && (r.exit_code != 0 || !complaints(r.err).empty()), "silent", "a missing configuration file was not reported", w, &r);
		});
		// an unusable file among usable ones, at every position
		batch(v, "one-bad", 3 * 6, 2, [full_](World& w, size_t i) {
			Strs bad{"{", "x", "[1]", "{\"maikeconfig\":3}", "{\"maikeconfig\":{\"dir_compiler\":[]}}", "<missing>"};
			Strs n;
			for(size_t k = 0; k < 3; ++k)
			{
				n.push_back("f" + std::to_string(k));
				if(k != i % 3) w.put(n[k], wrapped(full_).dump(false));
				else if(bad[i / 3] != "<missing>") w.put(n[k], bad[i / 3]);
			}
			auto r = dumpOf(w, n);
			expect("C14", ended(r) && (r.exit_code != 0 || !complaints(r.err).empty()), "silent", "an unusable file among others was not reported: " + bad[i / 3], w, &r);
		});
		// extensions handled by a loader that does not exist: no build
		batch(v, "no-loader", 1, 1, [](World& w, size_t) {
			J j = base();
			for(auto& p: j.o) if(p.first == "source_tree_loader") p.second.set("file_info_loaders", J::obj({{".x", "x"}, {".y", "nope"}}));
			for(auto n: {"x.rcp", "mkdir.rcp"}) mk(w, n);
			w.put("maikeconfig.json", wrapped(j).dump(false));
			w.put("a.x", "//@{\"target\":{\"name\":\"a.t\"}}\n");
			auto r = build(w, {}, {});
			expect("C14", ended(r) && r.exit_code != 0 && !complaints(r.err).empty() && r.compiles().empty(), "silent", "an extension handled by a loader that does not exist was accepted", w, &r);
		});
		// dump and original give the same build
		batch(v, "same-build", f * f, 8, [F, full_](World& w, size_t i) {
			J c = full_;
			for(auto& p: c.o) if(p.first == "source_tree_loader") p.second.set("file_info_loaders", J::obj({{".x", "x"}, {".y", "y"}})), p.second.set("input_filter", J::arr({"^\\.", "^__", "rcp$", "json$"}));
			for(auto& p: c.o) if(p.first == "source_file_info_loaders") p.second.set("y", J::obj({{"loader", "app"}, {"compiler", recipeCfg("m.rcp", J::obj({{"w", "t"}}))}}));
			merge(c, F[i % F.size()]);
			merge(c, F[i / F.size()]);
			sameBuild(w, c);
		});
		return v;
	});
}
