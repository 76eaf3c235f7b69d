// What the settings of a loader make of a file (C27): names of targets for mapped files, origin of includes for C++
// files, kinds of loaders whose recipe gets the dependencies of its targets.
#include "harness/common.h"
#include <regex.h>

static J conf(J loaders, J ext)
{
	return J::obj({{"maikeconfig", J::obj({{"dir_compiler", recipeCfg("mkdir.rcp")}, {"source_file_info_loaders", loaders},
		{"source_tree_loader", J::obj({{"file_info_loaders", ext}, {"fullpath_input_filter", J::arr()}, {"input_filter", J::arr({"^__"})}, {"recursive", 1}})}})}});
}
static void setup(World& w, J const& cfg, Strs const& rec)
{
	w.put(w.base + "/cfg.json", cfg.dump(false));
	for(auto& r: rec) w.put(w.base + "/inst/lib/maike2/recipes/" + r, r, true);
}
static Run go(World& w, int workers = 2)
{
	BuildOpt o;
	o.workers = workers;
	auto r = build(w, {"--configfiles=" + w.base + "/cfg.json"}, {}, o);
	sample(describe(w) + r.dump());
	return r;
}

// ------------------------------------------------------------------ mapped files
static std::string mapped(std::string const& name, std::string const& ext, int mode)
{
	if(mode != 2) return name + ext;
	auto dot = name.rfind('.');
	auto stem = dot == std::string::npos || dot == 0 ? name : name.substr(0, dot);
	if(ext.empty()) return stem;
	return stem + (ext[0] == '.' ? "" : ".") + ext;
}
static J genericLoader(std::string const& rec, std::string const& ext, int mode)
{
	J l = J::obj({{"loader", "generic"}, {"compiler", recipeCfg(rec, J::obj({{"k", rec}}))}});
	if(mode == 3) return l;    // no settings at all: the name is kept
	J c = J::obj({{"target_filename_ext", ext}});
	if(mode) c.set("filename_ext_replacement_mode", mode == 1 ? "append" : "replace");
	l.set("config", c);
	return l;
}
static Strs const kFiles{"a.g", "a.b.g", ".a.g", "a..g", "a b.g", "\xc3\xa5.g", "a.g.g", "a.tar.g", "x.tar.g", "A-_+.g", "ab.G.g", "..a.g", "a.h", "a.b.h", "'q\".g", "a", "g"};
static Strs const kExts{".o", "", "o", ".t.u", ".g", "_x", ".\xc3\xa5 '", ".long-extension-of-a-file"};
static Strs const kText{"", "plain\n", "#@{\"target\":{\"name\":\"other\"}}\n", "//@{\"target\":{\"name\":\"other\"}}\n", "{\"target\":{\"name\":\"other\"},\"dependencies\":[{\"ref\":\"nowhere\"}]}", "#include \"nowhere.h\"\n", "#@{\n", std::string("\0\xff\0#@{\n", 7), std::string(70000, 'x'), "/* \"", std::string(65536, '\n') + "#@{\"target\":{\"name\":\"other\"}}\n"};

struct Put { std::string dir, name, text; };
static void mapCase(World& w, std::string const& ext, int mode, std::vector<Put> const& files, bool identity, int workers)
{
	J ld = J::obj({{"g", genericLoader("g.rcp", ext, mode)}, {"h", genericLoader("h.rcp", ".hh", 1)}});
	setup(w, conf(ld, J::obj({{".g", "g"}, {".tar.g", identity ? "h" : "g"}, {".h", "g"}})), {"mkdir.rcp", "g.rcp", "h.rcp"});
	std::map<std::string, Strs> want;
	std::set<std::string> all, dup;
	for(auto& f: files)
	{
		w.put(f.dir + f.name, f.text);
		auto ends = [&](std::string const& e) { return f.name.size() > e.size() && f.name.compare(f.name.size() - e.size(), e.size(), e) == 0; };
		if(!ends(".g") && !ends(".h")) continue;
		auto t = "__targets/" + f.dir + (identity && ends(".tar.g") ? f.name + ".hh" : mapped(f.name, mode == 3 ? "" : ext, mode));
		want[f.dir + f.name] = {t};
		if(!all.insert(t).second) dup.insert(t);
		// a name taken by a directory cannot be a target too
		for(auto& g: files) if(norm("__targets/" + g.dir) == t) dup.insert(t);
	}
	auto r = go(w, workers);
	if(!ended(r)) { expect("C27", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	if(!dup.empty())
	{
		expect("C27", r.exit_code != 0 && r.compiles().empty(), "same-name", "two files are mapped to " + *dup.begin() + ", which was accepted", w, &r);
		expect("C27", r.err.find(fs::path(*dup.begin()).filename().string()) != std::string::npos, "same-name-diagnostic", "the target " + *dup.begin() + " of two files is not named in a diagnostic", w, &r);
		return;
	}
	expect("C27", r.exit_code == 0, "refused", "a valid project was refused", w, &r);
	std::string d;
	std::set<std::string> seen;
	for(auto c: r.compiles())
	{
		auto s = norm(c->src());
		struct stat st;
		if(::stat(w.abs(s).c_str(), &st) == 0 && S_ISDIR(st.st_mode)) continue;
		auto i = want.find(s);
		seen.insert(s);
		if(i == want.end()) { d += " unexpected:" + s; continue; }
		Strs got;
		for(auto& t: c->j.at("targets").a) got.push_back(norm(t.s));
		if(got != i->second) { d += " " + s + ": expected " + i->second[0] + ", given"; for(auto& t: got) d += " " + t; }
		for(auto& x: c->j.at("dependencies").a) if(x.at("ref").s.find("nowhere") != std::string::npos) d += " " + s + " got a dependency from its content";
	}
	for(auto& x: want) if(!seen.count(x.first)) d += " not built:" + x.first;
	expect("C27", d.empty(), "targets", "targets of mapped files:" + d, w, &r);
}
static void addMapped(Scens& v)
{
	Strs dirs{"", "d/", "d.g/", "d/e.h/"};
	// one file
	size_t n1 = kFiles.size() * kExts.size() * 4 * dirs.size();
	batch(v, "map1", n1, 32, [dirs](World& w, size_t i) {
		auto d = [&i](size_t n) { auto r = i % n; i /= n; return r; };
		auto mode = (int)d(4);
		auto& e = kExts[d(kExts.size())];
		auto& dir = dirs[d(dirs.size())];
		auto& f = kFiles[d(kFiles.size())];
		mapCase(w, e, mode, {{dir, f, kText[(i + f.size() + e.size() + mode) % kText.size()]}}, dir.size() == 2, 1);
	});
	// every content
	batch(v, "mapcontent", kText.size() * 4 * 4 * 2, 16, [dirs](World& w, size_t i) {
		auto d = [&i](size_t n) { auto r = i % n; i /= n; return r; };
		auto& t = kText[d(kText.size())];
		auto mode = (int)d(4);
		auto& e = kExts[d(4)];
		mapCase(w, e, mode, {{d(2) ? "d/" : "", "a.g", t}, {"", "b.g", "x"}}, true, 2);
	});
	// two files, perhaps with one target
	size_t nf = kFiles.size(), ne = thorough() ? kExts.size() : 4;
	batch(v, "map2", nf * nf * ne * 2 * 2, 32, [nf, ne](World& w, size_t i) {
		auto d = [&i](size_t n) { auto r = i % n; i /= n; return r; };
		auto a = d(nf), b = d(nf);
		auto mode = (int)d(2) + 1;
		auto& e = kExts[d(ne)];
		bool apart = d(2);
		if(a == b || (!apart && a > b)) { --mc::currentResult()->inner_states; return; }
		mapCase(w, e, mode, {{"", kFiles[a], "1"}, {apart ? "d/" : "", kFiles[b], "2"}}, (a + b) % 3 == 0, 2);
	});
	// all of them
	batch(v, "mapall", kExts.size() * 4 * 3, 4, [dirs](World& w, size_t i) {
		auto d = [&i](size_t n) { auto r = i % n; i /= n; return r; };
		auto mode = (int)d(4);
		auto& e = kExts[d(kExts.size())];
		int workers = (int)d(3) + 1;
		std::vector<Put> p;
		for(auto& dir: dirs)
		{
			std::set<std::string> t;
			for(auto& f: kFiles) if(t.insert(mapped(f, mode == 3 ? "" : e, mode)).second && t.insert(f + ".hh").second) p.push_back({dir, f, kText[p.size() % kText.size()]});
		}
		mapCase(w, e, mode, p, false, workers);
	});
}

// ------------------------------------------------------------------ includes of generated files
static bool search(std::string const& pat, std::string const& s)
{
	regex_t re;
	if(regcomp(&re, pat.c_str(), REG_NOSUB) != 0) mc::fail("harness", "bad expression " + pat);
	bool m = regexec(&re, s.c_str(), 0, nullptr, 0) == 0;
	regfree(&re);
	return m;
}
static void addIncludes(Scens& v)
{
	static Strs const pats{"\\.gen\\.hh$", "^gen/", "a", "^\\./", "^d/.*\\.h$", "\\(x\\)[.]g"};
	static Strs const files{"gen/a.hh", "b.gen.hh", "d/gen.hh", "b.gen.hpp", "x.g", "d/q.h", "zz.hh"};
	// 0..63: that set of expressions; 64: none configured; 65: no settings
	batch(v, "includes", 66 * 3 * 2 * 2, 8, [](World& w, size_t i) {
		auto d = [&i](size_t n) { auto r = i % n; i /= n; return r; };
		auto set = d(66);
		int place = (int)d(3);   // where the including file is and how it names the others
		bool rev = d(2);
		bool system = d(2);
		Strs P;
		if(set < 64) { for(size_t k = 0; k < pats.size(); ++k) if(set >> k & 1) P.push_back(pats[k]); }
		if(rev) std::reverse(P.begin(), P.end());
		J c = J::obj({{"loader", "cxx_src_loader"}, {"compiler", recipeCfg("c.rcp", J::obj())}});
		if(set == 64) c.set("config", J::obj());
		else if(set < 64) { J a = J::arr(); for(auto& x: P) a.a.push_back(x); c.set("config", J::obj({{"generated_includes", a}})); }
		else P = {".*\\.gen\\.hpp$"};
		setup(w, conf(J::obj({{"c", c}, {"m", J::obj({{"loader", "maikerule"}, {"compiler", recipeCfg("m.rcp", J::obj())}})}}), J::obj({{".cc", "c"}, {".rule", "m"}})), {"mkdir.rcp", "c.rcp", "m.rcp"});
		std::string from = place == 2 ? "d/" : "";
		std::string text = "//@{\"target\":{\"name\":\"main.o\"}}\n";
		std::multiset<std::string> want, got;
		for(size_t k = 0; k < files.size(); ++k)
		{
			auto& f = files[k];
			// a project file and a generated one with the same name
			w.put(f, "project\n");
			auto p = fs::path(f);
			w.put((p.parent_path() / ("p" + std::to_string(k) + ".rule")).string(), "{\"target\":{\"name\":\"" + p.filename().string() + "\"}}");
			std::string name = f;
			if(place == 1) name = "./" + f;
			if(place == 2 && f.compare(0, 2, "d/") == 0) name = "./" + f.substr(2);
			bool sys = system && k % 2;
			text += sys ? "#include <" + name + ">\n" : "#include \"" + name + "\"\n";
			if(sys) { want.insert("system " + name); continue; }
			bool gen = false;
			for(auto& q: P) gen = gen || search(q, name);
			want.insert(gen ? "generated __targets/" + f : "project " + f);
		}
		w.put(from + "main.cc", text);
		auto r = go(w);
		if(!ended(r)) { expect("C27", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
		expect("C27", r.exit_code == 0, "refused", "a valid project was refused", w, &r);
		// what the generated files are made of belongs to the dependencies too, unless it is there already
		for(auto c: r.compiles())
			if(norm(c->src()) == from + "main.cc")
				for(auto& x: c->j.at("dependencies").a)
				{
					auto o = x.at("origin").s;
					auto ref = x.at("ref").s;
					if(o != "system") ref = norm(ref);
					auto n = fs::path(ref).filename().string();
					if(n.size() > 5 && n.compare(n.size() - 5, 5, ".rule") == 0) continue;
					if(n.size() > 4 && n.compare(n.size() - 4, 4, ".rcp") == 0) continue;
					if(ref == "." || ref == "gen" || ref == "d") continue;
					got.insert(o + " " + ref);
				}
		auto diff = cdiff(want, got);
		expect("C27", diff.empty(), "includes", "origins of the includes:" + diff, w, &r);
	});
}

// ------------------------------------------------------------------ dependencies of targets
static void addTargetDeps(Scens& v)
{
	// loader x configuration x own configuration of the file
	batch(v, "targetdeps", 8 * 6 * 6 * 3, 16, [](World& w, size_t i) {
		auto d = [&i](size_t n) { auto r = i % n; i /= n; return r; };
		auto kind = d(8);
		auto acts = d(6), own = d(6);
		auto what = d(3);
		auto actions = [](size_t k) {
			J c = J::obj({{"n", (int)k}});
			if(k == 1) c.set("actions", J::arr({"link"}));
			if(k == 2) c.set("actions", J::arr({"compile"}));
			if(k == 3) c.set("actions", J::arr());
			if(k == 4) c.set("actions", J::arr({"run", "link"}));
			if(k == 5) c.set("actions", J::arr({"linked"}));
			return c;
		};
		Strs names{"cxx_src_loader", "app", "lib", "maikerule", "extension", "generic", "cxx_src_loader", "lib"};
		auto name = names[kind];
		J l = J::obj({{"loader", name}, {"compiler", recipeCfg("k.rcp", actions(acts))}});
		if(name == "generic") l.set("config", J::obj({{"target_filename_ext", ".o"}}));
		setup(w, conf(J::obj({{"k", l}, {"m", J::obj({{"loader", "maikerule"}, {"compiler", recipeCfg("m.rcp", J::obj())}})}}), J::obj({{".k", "k"}, {".rule", "m"}})), {"mkdir.rcp", "k.rcp", "m.rcp"});
		w.put("p.rule", "{\"target\":{\"name\":\"p.t\"}}");
		std::string dep = what == 0 ? "{\"ref\":\"p.t\",\"origin\":\"generated\"}" : what == 1 ? "{\"ref\":\"sysdep\"}" : "{\"ref\":\"note\",\"origin\":\"project\"}";
		w.put("note", "n");
		std::string tags = "{\"target\":{\"name\":\"a.k.o\",\"dependencies\":[" + dep + "]}" + (own ? ",\"compiler\":{\"recipe\":\"\",\"config\":" + actions(own).dump(false) + "}" : "") + "}";
		auto pre = name == "cxx_src_loader" ? "//@" : name == "extension" ? "#@" : "";
		if(own && name == "generic") { --mc::currentResult()->inner_states; return; }
		w.put("a.k", pre + tags + "\n");
		w.put("b.rule", "{\"target\":{\"name\":\"b.t\"},\"dependencies\":[{\"ref\":\"a.k.o\"}]}");
		auto r = go(w);
		if(!ended(r)) { expect("C27", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
		expect("C27", r.exit_code == 0, "refused", "a valid project was refused", w, &r);
		bool link = name == "lib";
		// a C++ file is linked when its loader's configuration has that action
		if(name == "cxx_src_loader") link = acts == 1 || acts == 4;
		bool declared = name != "generic";
		auto ref = what == 0 ? "__targets/p.t" : what == 1 ? "sysdep" : "note";
		for(auto c: r.compiles())
		{
			auto s = norm(c->src());
			if(s != "a.k" && s != "b.rule") continue;
			// what the file's own list of actions means for this is left open
			if(s == "a.k" && name == "cxx_src_loader" && own && (own == 1 || own == 4) != link) continue;
			size_t n = 0;
			for(auto& x: c->j.at("dependencies").a) if(norm(x.at("ref").s) == ref) ++n;
			bool want = s == "a.k" ? link : declared;
			expect("C27", n == (want ? 1u : 0u), "target-deps", s + (want ? " was not given " : " was given ") + ref + ", a dependency of the target a.k.o (loader " + name + ")", w, &r);
		}
		auto got = r.compiled();
		expect("C27", got.count("a.k") && got.count("b.rule"), "tasks", "a file was not compiled", w, &r);
	});
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g == "C27") { addMapped(v); addIncludes(v); addTargetDeps(v); }
		return v;
	});
}
