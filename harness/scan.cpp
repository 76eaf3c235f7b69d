// The scan of the source tree (C10): trees x filters x recursion x loaders x order of directory entries x workers.
#include "harness/common.h"
#include <regex.h>

struct Filt { Strs name, path; };

static bool matches(Strs const& f, std::string const& s)
{
	for(auto& x: f)
	{
		regex_t re;
		if(regcomp(&re, x.c_str(), REG_NOSUB) != 0) mc::fail("harness", "bad expression " + x);
		bool m = regexec(&re, s.c_str(), 0, nullptr, 0) == 0;
		regfree(&re);
		if(m) return true;
	}
	return false;
}

using Exts = std::map<std::string, std::string>;   // extension -> recipe

struct Tree
{
	std::map<std::string, std::string> files;   // path -> content; "" with trailing slash in the path: directory
	std::map<std::string, std::string> links;
	std::set<std::string> empty_dirs;
};

struct Setup { Filt f; bool rec{true}; Exts ext; std::string sd; int workers{1}, rdperm{0}; };

static std::string recipeFor(Exts const& e, std::string const& path)
{
	auto f = fs::path(path).filename().string();
	// an extension starts at a dot that is not the first character of the name
	for(size_t k = 1; k < f.size(); ++k)
		if(f[k] == '.') { auto i = e.find(f.substr(k)); if(i != e.end()) return i->second; }
	return "";
}

struct Expect { std::set<std::string> dirs{"."}; std::map<std::string, std::string> files; };   // files -> recipe ("" = not handled)

static Expect expected(Tree const& t, Setup const& s)
{
	Expect e;
	std::set<std::string> dirs;
	std::set<std::string> entries;
	auto parents = [&](std::string const& p) { for(auto q = fs::path(p).parent_path(); !q.empty(); q = q.parent_path()) dirs.insert(q.string()); };
	for(auto& f: t.files) { parents(f.first); entries.insert(f.first); }
	for(auto& f: t.links) { parents(f.first); entries.insert(f.first); }
	for(auto& d: t.empty_dirs) { parents(d); dirs.insert(d); }
	auto visible = [&](std::string const& p, bool dir) {
		// every component must pass
		fs::path q;
		fs::path whole(p);
		auto n = std::distance(whole.begin(), whole.end());
		int k = 0;
		for(auto& c: whole)
		{
			q /= c;
			++k;
			bool isdir = k < n || dir;
			if(isdir && !s.rec) return false;
			if(matches(s.f.name, c.string()) || matches(s.f.path, q.string())) return false;
		}
		return true;
	};
	for(auto& d: dirs) if(visible(d, true)) e.dirs.insert(d);
	for(auto& f: entries) if(visible(f, false)) e.files[f] = recipeFor(s.ext, f);
	return e;
}

static void lay(World& w, Tree const& t, Setup const& s)
{
	std::string pre = s.sd.empty() ? "" : s.sd + "/";
	J loaders = J::obj(), ext = J::obj();
	std::set<std::string> rec{"mkdir.rcp"};
	for(auto& e: s.ext)
	{
		ext.set(e.first, "L" + e.second);
		loaders.set("L" + e.second, J::obj({{"loader", "extension"}, {"compiler", recipeCfg(e.second, J::obj({{"k", e.second}}))}}));
		rec.insert(e.second);
	}
	auto strs = [](Strs const& v) { std::vector<J> r; for(auto& x: v) r.push_back(x); return J::arr(r); };
	J cfg = J::obj({{"dir_compiler", recipeCfg("mkdir.rcp")}, {"source_file_info_loaders", loaders},
	                {"source_tree_loader", J::obj({{"file_info_loaders", ext}, {"fullpath_input_filter", strs(s.f.path)}, {"input_filter", strs(s.f.name)}, {"recursive", s.rec ? 1 : 0}})}});
	w.put(w.base + "/cfg.json", J::obj({{"maikeconfig", cfg}}).dump(false));
	for(auto& r: rec) w.put(w.base + "/inst/lib/maike2/recipes/" + r, r, true);
	if(!s.sd.empty()) w.makeDirs(w.abs(s.sd));
	for(auto& d: t.empty_dirs) w.makeDirs(w.abs(pre + d));
	for(auto& f: t.files) w.put(pre + f.first, f.second);
	for(auto& f: t.links)
	{
		w.makeDirs(fs::path(w.abs(pre + f.first)).parent_path().string());
		if(symlink(f.second.c_str(), w.abs(pre + f.first).c_str())) mc::fail("harness", "symlink");
	}
}

static Strs argsOf(World& w, Setup const& s)
{
	Strs a{"--configfiles=" + w.base + "/cfg.json", "--target-dir=" + w.base + "/out"};
	if(!s.sd.empty()) a.push_back("--source-dir=" + s.sd);
	return a;
}

static Run go(World& w, Setup const& s)
{
	BuildOpt o;
	o.workers = s.workers;
	o.rdperm = s.rdperm;
	return build(w, argsOf(w, s), {}, o);
}

static std::string place(Setup const& s, std::string const& p) { return s.sd.empty() ? p : norm(s.sd + "/" + p); }

static void good(World& w, Tree const& t, Setup const& s, Run const& r)
{
	auto e = expected(t, s);
	if(!ended(r)) { expect("C10", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	expect("C10", r.exit_code == 0, "refused", "a valid source tree was refused", w, &r);
	std::map<std::string, std::string> want, got;
	for(auto& d: e.dirs) want[place(s, d)] = "mkdir.rcp";
	for(auto& f: e.files) if(!f.second.empty()) want[place(s, f.first)] = f.second;
	for(auto c: r.compiles()) got[norm(c->src())] = fs::path(c->path).filename().string();
	std::string d;
	for(auto& x: want) if(!got.count(x.first)) d += " missing:" + x.first; else if(got[x.first] != x.second) d += " " + x.first + " handled by " + got[x.first] + " instead of " + x.second;
	for(auto& x: got) if(!want.count(x.first)) d += " unexpected:" + x.first;
	expect("C10", d.empty() && r.compiles().size() == want.size(), "files", "the files taken into account are wrong:" + d, w, &r);
}

static std::string tag(std::string const& p) { return "#@{\"target\":{\"name\":\"" + fs::path(p).filename().string() + ".out\"}}\n"; }

static Strs const kCand{"a.x", "b.y.x", "c.y", ".h.x", "__g.x", "d/a.x", "d/.e/k.x", "d/e/n.z.x", "d.x/m", "d/e/.x", "e/q.w.y.x"};
static std::vector<Filt> const kFilt{
	{{"^\\.", "^__"}, {}}, {{}, {}}, {{"^d$"}, {}}, {{"e$"}, {}}, {{}, {"^d/e$"}}, {{}, {"/e"}}, {{}, {"^d"}}, {{"\\.y"}, {"a\\.x$"}}, {{"^n"}, {"^d/a.x"}}, {{"^a\\.x$"}, {}}, {{}, {"^e/", "^a"}},
	{{"^\\(d\\)$"}, {}}, {{"[.]x$", "m"}, {}}, {{}, {"^p", "\\."}},
};
static Exts const kExt{{".x", "rx"}, {".y", "ry"}, {".y.x", "ryx"}, {".w.y.x", "rwyx"}};

static Tree treeOf(size_t mask) { Tree t; for(size_t k = 0; k < kCand.size(); ++k) if(mask >> k & 1) t.files[kCand[k]] = tag(kCand[k]); return t; }
static Setup variant(int v)
{
	Setup s;
	s.ext = kExt;
	if(v == 1) { s.sd = "p"; s.workers = 3; s.rdperm = 1; }
	if(v == 2) { s.workers = 2; s.rdperm = 2; }
	return s;
}

static void addAll(Scens& v)
{
	// every set of files x every filter x recursion
	// quick: the last one is always there
	size_t nm = 1u << (kCand.size() - (thorough() ? 0 : 1));
	size_t nv = thorough() ? 3 : 1;
	batch(v, "trees", nm * kFilt.size() * nv, 512, [nm, nv](World& w, size_t i) {
		size_t mask = i % nm | (thorough() ? 0 : nm);
		i /= nm;
		auto& f = kFilt[i % kFilt.size()];
		i /= kFilt.size();
		// quick: the kind of run is a function of the tree, thorough: all of them
		Setup s = variant(nv > 1 ? (int)i : (int)((mask * 2654435761u >> 7) % 3));
		s.f = f;
		s.rec = nv > 1 ? true : (mask * 2654435761u >> 12) % 4 != 0;
		auto t = treeOf(mask);
		lay(w, t, s);
		auto r = go(w, s);
		sample(describe(w) + r.dump());
		good(w, t, s, r);
	});
	// the full tree with every variant, recursion, filter pair
	size_t nf = kFilt.size();
	batch(v, "filters", nf * nf * 2 * 3, 32, [nf](World& w, size_t i) {
		Setup s = variant(i % 3);
		i /= 3;
		s.rec = i % 2;
		i /= 2;
		s.f.name = kFilt[i % nf].name;
		s.f.path = kFilt[i / nf].path;
		auto& p2 = kFilt[i % nf].path;
		s.f.path.insert(s.f.path.end(), p2.begin(), p2.end());
		auto t = treeOf(~0ull);
		t.empty_dirs = {"d/empty", "z", "d/e/.v"};
		lay(w, t, s);
		good(w, t, s, go(w, s));
	});
	// which extension: every subset of configured extensions x names
	Strs names{"a.x", "a.y", "a.y.x", "a.w.y.x", "a..x", "a.y..x", ".x", ".y.x", "a.xx", "ax", "a.X", "a.x.", "a.y.x.z", "x.y", "y.x/f.y.x", "k.x/f",
		"a-longer-name.x", "a-longer-name1.x", "abcdefgh.w.y.x", "abcdefghi.w.y.x", "abcdefghij.y.x", "abcdefghijk.y.x", "more.than.one.dot.x", "more.than.one.dots.y.x", std::string(230, 'n') + ".x", std::string(231, 'n') + ".w.y.x", std::string(250, 'n') + ".q"};
	Strs exts{".x", ".y", ".y.x", ".w.y.x", ".z", "..x"};
	batch(v, "extensions", 1u << exts.size(), 8, [names, exts](World& w, size_t i) {
		Setup s = variant(i % 3);
		s.ext.clear();
		for(size_t k = 0; k < exts.size(); ++k) if(i >> k & 1) s.ext[exts[k]] = "r" + std::to_string(k);
		Tree t;
		for(auto& n: names) t.files[n] = tag(n);
		lay(w, t, s);
		good(w, t, s, go(w, s));
	});
	// a file that is excluded does not exist for other files, one that is not excluded does
	batch(v, "probe", kCand.size() * nf * 2 * 2, 32, [nf](World& w, size_t i) {
		Setup s = variant(i % 2);
		i /= 2;
		s.rec = i % 2;
		i /= 2;
		auto& c = kCand[i % kCand.size()];
		s.f = kFilt[i / kCand.size()];
		s.ext[".probe"] = "rx";
		Tree t = treeOf(~0ull);
		t.files["zz.probe"] = "#@{\"target\":{\"name\":\"zz.out\"},\"dependencies\":[{\"ref\":\"" + c + "\",\"origin\":\"project\"}]}\n";
		auto e = expected(t, s);
		lay(w, t, s);
		auto r = go(w, s);
		if(!e.files.count("zz.probe") || e.files.count(c)) good(w, t, s, r);
		else
		{
			expect("C10", ended(r) && r.exit_code != 0, "excluded-used", "the excluded file " + c + " was taken into account", w, &r);
			expect("C10", r.compiles().empty(), "excluded-built", "something was built although a dependency is excluded", w, &r);
		}
	});
	// files that cannot be opened or are malformed
	struct Bad { char const* what; std::string content; char link; };
	auto bads = std::make_shared<std::vector<Bad>>(std::vector<Bad>{
		{"truncated", "#@{\"target\":\n", 0}, {"no value", "#@}\n", 0}, {"text", "#@hello\n", 0}, {"array", "#@[]\n", 0}, {"unterminated string", "#@{\"a\":\"\n", 0},
		{"target is a number", "#@{\"target\":3}\n", 0}, {"target without name", "#@{\"target\":{}}\n", 0}, {"name is a number", "#@{\"target\":{\"name\":1}}\n", 0},
		{"targets is an object", "#@{\"targets\":{\"name\":\"q\"}}\n", 0}, {"dependency without ref", "#@{\"dependencies\":[{}]}\n", 0}, {"dependency is a string", "#@{\"dependencies\":[\"a\"]}\n", 0},
		{"bad origin", "#@{\"dependencies\":[{\"ref\":\"a\",\"origin\":\"nowhere\"}]}\n", 0}, {"bad rebuild policy", "#@{\"rebuild\":\"sometimes\"}\n", 0}, {"unknown recipe", "#@{\"compiler\":{\"recipe\":\"nosuch.rcp\",\"config\":{}}}\n", 0},
		{"dangling link", "", 'd'}, {"link to itself", "", 's'}, {"duplicate key", "#@{\"target\":{\"name\":\"q\"},\"target\":{\"name\":\"r\"}}\n", 0}});
	bads->pop_back();
	Strs at{"a.x", "d/a.x", "d/e/n.z.x", ".h.x", "c.y", "d.x/m", "e/q.w.y.x"};
	batch(v, "bad", bads->size() * at.size() * nf * 2, 32, [bads, at, nf](World& w, size_t i) {
		Setup s = variant(i % 2 ? 1 : 2);
		i /= 2;
		auto& b = (*bads)[i % bads->size()];
		i /= bads->size();
		auto& p = at[i % at.size()];
		s.f = kFilt[i / at.size()];
		Tree t = treeOf(~0ull);
		if(b.link) { t.files.erase(p); t.links[p] = b.link == 'd' ? "nowhere" : fs::path(p).filename().string(); }
		else t.files[p] = b.content;
		auto e = expected(t, s);
		lay(w, t, s);
		auto r = go(w, s);
		auto x = e.files.find(p);
		bool handled = x != e.files.end() && !x->second.empty();
		if(x != e.files.end() && !handled && b.link) return;   // not opened: nothing is said about it
		if(!handled) { if(!b.link || x == e.files.end()) good(w, t, s, r); return; }
		expect("C10", ended(r) && r.exit_code != 0, "bad-accepted", std::string("a file (") + b.what + ") was skipped: " + p, w, &r);
		expect("C10", r.compiles().empty(), "bad-built", std::string("something was built although ") + p + " is unusable (" + b.what + ")", w, &r);
		expect("C10", r.err.find(place(s, p)) != std::string::npos, "bad-diagnostic", "the file " + p + " (" + b.what + ") is not named in the diagnostic", w, &r);
	});
	// several of them: each one is named
	batch(v, "bads", 3 * (1u << at.size()) * (thorough() ? nf : 2) * bads->size() / (thorough() ? 1 : 3), 32, [bads, at, nf](World& w, size_t i) {
		Setup s = variant(i % 3);
		i /= 3;
		size_t mask = i % (1u << at.size());
		i >>= at.size();
		s.f = kFilt[thorough() ? i % nf : i % 2 * 6];
		i /= thorough() ? nf : 2;
		if(!thorough()) i *= 3;
		Tree t = treeOf(~0ull);
		for(size_t k = 0; k < at.size(); ++k)
		{
			if(!(mask >> k & 1)) continue;
			auto& b = (*bads)[(i + k) % bads->size()];
			auto& p = at[k];
			if(b.link) { t.files.erase(p); t.links[p] = b.link == 'd' ? "nowhere" : fs::path(p).filename().string(); }
			else t.files[p] = b.content;
		}
		auto e = expected(t, s);
		Strs want;
		bool unsure = false;
		for(size_t k = 0; k < at.size(); ++k)
		{
			auto x = e.files.find(at[k]);
			if(!(mask >> k & 1) || x == e.files.end()) continue;
			if(!x->second.empty()) want.push_back(place(s, at[k]));
			else if(t.links.count(at[k])) unsure = true;
		}
		lay(w, t, s);
		auto r = go(w, s);
		if(want.empty()) { if(!unsure) good(w, t, s, r); return; }
		expect("C10", ended(r) && r.exit_code != 0, "bads-accepted", std::to_string(want.size()) + " unusable files were skipped", w, &r);
		expect("C10", r.compiles().empty(), "bads-built", "something was built although there are unusable files", w, &r);
		for(auto& x: want) expect("C10", r.err.find(x) != std::string::npos, "bads-diagnostic", "the unusable file " + x + " is not named in the diagnostic", w, &r);
	});
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g == "C10") addAll(v);
		return v;
	});
}
