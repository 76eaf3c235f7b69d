// Project specifications (what the user writes) and the reference model of what they mean.
// The model is written from the documented behaviour and shares no code with maike.
#pragma once
#include "world.h"

namespace wp
{
	struct Edge
	{
		char kind;            // D dependencies, T dependencies of the first target, X dependencies_extra, I include directive (c++ files)
		std::string ref;      // as spelled
		std::string origin;   // "" = not given
		std::map<std::string, std::string> props;
	};

	struct Src
	{
		std::string path;
		Strs targets;
		std::vector<Edge> edges;
		int ver{0};
		int rebuild{-1};      // -1 not given, 0 only_if_out_of_date, 1 always
		J compiler;           // Null: not given
		bool no_compile{false};
		bool present{true};
		char style{'t'};      // t: "target" for the first target, a: "targets" array for all
	};

	struct Spec
	{
		std::vector<Src> srcs;
		std::map<std::string, std::string> plain;     // other files
		std::map<std::string, std::string> recipes;   // executable files in the project
		std::string srcdir{"."};
		std::string tgtdir{"__targets"};
		J cfg;
	};

	inline J recipeCfg(std::string const& r, J cfg = J::obj(), int tags = -1) { J c = J::obj({{"recipe", r}, {"config", cfg}}); if(tags >= 0) c.set("use_get_tags", tags); return c; }

	inline J stdConfig()
	{
		J loaders = J::obj();
		loaders.set("x", J::obj({{"loader", "extension"}, {"compiler", recipeCfg("x.rcp", J::obj({{"k", 1}}))}}));
		loaders.set("c", J::obj({{"loader", "cxx_src_loader"}, {"compiler", recipeCfg("c.rcp", J::obj({{"c", 2}}))}, {"config", J::obj({{"generated_includes", J::arr({"\\.gen\\.hh$"})}})}}));
		loaders.set("ct", J::obj({{"loader", "cxx_src_loader"}, {"compiler", recipeCfg("c.rcp", J::obj({{"actions", J::arr({"link", "run"})}}))}}));
		loaders.set("l", J::obj({{"loader", "lib"}, {"compiler", recipeCfg("l.rcp", J::obj({{"l", 3}}))}}));
		loaders.set("m", J::obj({{"loader", "maikerule"}, {"compiler", recipeCfg("m.rcp", J::obj({{"m", 4}}))}}));
		// no recipe: the source file is executed itself
		loaders.set("s", J::obj({{"loader", "extension"}, {"compiler", recipeCfg("", J::obj({{"s", 5}}))}}));
		J ext = J::obj({{".x", "x"}, {".sh", "s"}, {".cc", "c"}, {".hh", "c"}, {".test.cc", "ct"}, {".lib", "l"}, {".rule", "m"}});
		return J::obj({{"dir_compiler", recipeCfg("mkdir.rcp")},
		               {"source_file_info_loaders", loaders},
		               {"source_tree_loader", J::obj({{"file_info_loaders", ext}, {"fullpath_input_filter", J::arr()}, {"input_filter", J::arr({"^\\.", "^__"})}, {"recursive", 1}})}});
	}

	inline std::string loaderOf(std::string const& p)
	{
		auto f = fs::path(p).filename().string();
		auto ends = [&f](char const* e) { size_t n = strlen(e); return f.size() > n && f.compare(f.size() - n, n, e) == 0; };
		if(ends(".test.cc")) return "ct";
		if(ends(".cc") || ends(".hh")) return "c";
		if(ends(".x")) return "x";
		if(ends(".sh")) return "s";
		if(ends(".lib")) return "l";
		if(ends(".rule")) return "m";
		return "";
	}

	inline J edgeJson(Edge const& e) { J d = J::obj({{"ref", e.ref}}); if(!e.origin.empty()) d.set("origin", e.origin); for(auto& p: e.props) d.set(p.first, p.second); return d; }

	inline std::string emit(Src const& s)
	{
		J tags = J::obj();
		std::vector<J> D, X, T;
		std::string inc;
		for(auto& e: s.edges)
		{
			if(e.kind == 'D') D.push_back(edgeJson(e));
			if(e.kind == 'X') X.push_back(edgeJson(e));
			if(e.kind == 'T') T.push_back(edgeJson(e));
			if(e.kind == 'I') inc += e.origin == "system" ? "#include <" + e.ref + ">\n" : "#include \"" + e.ref + "\"\n";
		}
		std::vector<J> more;
		for(size_t k = 0; k < s.targets.size(); ++k)
		{
			J t = J::obj({{"name", s.targets[k]}});
			if(k == 0 && !T.empty()) t.set("dependencies", J::arr(T));
			if(k == 0 && s.style == 't') tags.set("target", t); else more.push_back(t);
		}
		if(!more.empty()) tags.set("targets", J::arr(more));
		if(!D.empty()) tags.set("dependencies", J::arr(D));
		if(!X.empty()) tags.set("dependencies_extra", J::arr(X));
		if(s.compiler.t != J::Null) tags.set("compiler", s.compiler);
		if(s.rebuild >= 0) tags.set("rebuild", s.rebuild ? "always" : "only_if_out_of_date");
		auto l = loaderOf(s.path);
		auto body = tags.dump(false);
		if(l == "x" || l == "s") return "#@" + body + "\n# version " + std::to_string(s.ver) + "\n";
		if(l == "c" || l == "ct") return "//@" + body + "\n// version " + std::to_string(s.ver) + "\n" + inc;
		// whole file is the tag text: version becomes an unused key
		tags.set("comment", std::to_string(s.ver));
		return tags.dump(false) + "\n";
	}

	inline void materialise(World& w, Spec const& sp)
	{
		std::string pre = sp.srcdir == "." ? "" : sp.srcdir + "/";
		w.put(pre + "maikeconfig.json", J::obj({{"maikeconfig", sp.cfg}}).dump(false));
		for(auto& r: sp.recipes) w.put(pre + r.first, r.second, true);
		for(auto& f: sp.plain) w.put(pre + f.first, f.second);
		for(auto& s: sp.srcs) if(s.present) w.put(pre + s.path, emit(s), loaderOf(s.path) == "s");
	}

	// ------------------------------------------------------------------ model
	struct MDep { std::string name, origin; std::map<std::string, std::string> props; };
	struct MNode
	{
		std::vector<MDep> use, build, extra;
		std::vector<std::pair<std::string, std::vector<MDep>>> targets;
		bool dir{false}, gen{false}, ext{false}, always{false}, utd{false};
		std::string recipe;
		J cfg{J::obj()};
		bool task() const { return !targets.empty(); }
	};

	inline std::string resolveRef(std::string const& ref, std::string const& origin, std::string const& file, Spec const& sp)
	{
		if(origin != "project" && origin != "generated") return ref;
		fs::path rel;   // relative to source dir
		if(ref.rfind("./", 0) == 0) rel = fs::path(file).parent_path() / ref; else rel = ref;
		fs::path r = (origin == "generated" ? fs::path(sp.tgtdir) : fs::path(sp.srcdir)) / rel;
		return norm(r.string());
	}

	struct Model
	{
		std::map<std::string, MNode> n;
		bool dup{false}, cyclic{false}, unresolved{false};
		std::map<std::string, std::set<std::string>> clo;

		void visit(std::string const& k, std::set<std::string>& seen) const
		{
			auto i = n.find(k);
			if(i == n.end()) return;
			for(auto* v: {&i->second.use, &i->second.build})
				for(auto& d: *v) if(n.count(d.name) && seen.insert(d.name).second) visit(d.name, seen);
		}
		std::set<std::string> const& closure(std::string const& k)
		{
			auto i = clo.find(k);
			if(i != clo.end()) return i->second;
			std::set<std::string> s;
			visit(k, s);
			return clo[k] = s;
		}
		Strs tasks() const { Strs r; for(auto& x: n) if(x.second.task()) r.push_back(x.first); return r; }
		// tasks in dependency order
		Strs topo()
		{
			Strs r;
			std::set<std::string> done;
			std::function<void(std::string const&)> go = [&](std::string const& k) {
				if(!done.insert(k).second) return;
				auto i = n.find(k);
				if(i == n.end()) return;
				for(auto* v: {&i->second.use, &i->second.build}) for(auto& d: *v) go(d.name);
				if(i->second.task()) r.push_back(k);
			};
			for(auto& x: n) go(x.first);
			return r;
		}
	};

	inline Model makeModel(Spec const& sp)
	{
		Model m;
		std::string sd = norm(sp.srcdir);
		auto at = [&sd](std::string const& p) { return sd == "." ? norm(p) : norm(sd + "/" + p); };
		auto tgt = [&sp](std::string const& p) { return norm(sp.tgtdir + "/" + p); };
		auto recipeDep = [&](std::string const& r) { bool proj = sp.recipes.count(r); return MDep{proj ? at(r) : r, proj ? "project" : "system", {}}; };
		auto const& dc = sp.cfg.at("dir_compiler");
		// directories
		std::set<std::string> dirs{"."};
		auto addDirs = [&dirs](std::string const& p) { for(auto q = fs::path(p).parent_path(); !q.empty() && q != "."; q = q.parent_path()) dirs.insert(norm(q.string())); };
		for(auto& s: sp.srcs) if(s.present) addDirs(s.path);
		for(auto& s: sp.plain) addDirs(s.first);
		for(auto& s: sp.recipes) addDirs(s.first);
		for(auto& d: dirs)
		{
			MNode x;
			x.dir = true;
			x.recipe = dc.at("recipe").s;
			x.cfg = dc.at("config");
			if(d != ".") { auto p = fs::path(d).parent_path().string(); x.use.push_back({at(p.empty() ? "." : p), "project", {}}); }
			x.use.push_back(recipeDep(x.recipe));
			x.targets.push_back({tgt(d), {}});
			m.n[at(d)] = x;
		}
		for(auto& f: sp.plain) m.n[at(f.first)] = MNode{};
		m.n[at("maikeconfig.json")] = MNode{};
		for(auto& f: sp.recipes) m.n[at(f.first)] = MNode{};
		for(auto& s: sp.srcs)
		{
			if(!s.present) continue;
			MNode x;
			auto l = loaderOf(s.path);
			if(l.empty()) { m.n[at(s.path)] = x; continue; }
			auto parent = fs::path(s.path).parent_path().string();
			x.use.push_back({at(parent.empty() ? "." : parent), "project", {}});
			std::vector<MDep> T;
			for(auto& e: s.edges)
			{
				std::string org = e.origin;
				if(org.empty()) org = e.kind == 'T' ? "system" : e.kind == 'I' ? (e.ref.size() > 7 && e.ref.compare(e.ref.size() - 7, 7, ".gen.hh") == 0 ? "generated" : "project") : "generated";
				MDep d{resolveRef(e.ref, org, s.path, sp), org, e.props};
				if(e.kind == 'D' || e.kind == 'I') x.use.push_back(d);
				if(e.kind == 'X') x.extra.push_back(d);
				if(e.kind == 'T') T.push_back(d);
			}
			J comp = sp.cfg.at("source_file_info_loaders").at(l).at("compiler");
			x.recipe = comp.at("recipe").s;
			x.cfg = comp.at("config");
			std::string dep_recipe = x.recipe;
			if(s.compiler.t != J::Null)
			{
				if(auto r = s.compiler.find("recipe")) if(!r->s.empty()) x.recipe = r->s;
				dep_recipe = x.recipe;
				if(auto c = s.compiler.find("config")) for(auto& kv: c->o) x.cfg.set(kv.first, kv.second);
			}
			if(!dep_recipe.empty()) x.use.push_back(recipeDep(dep_recipe));
			x.always = s.rebuild == 1;
			bool link = false;
			if(auto a = comp.at("config").find("actions")) for(auto& y: a->a) if(y.s == "link") link = true;
			x.utd = l == "l" || ((l == "c" || l == "ct") && link);
			for(size_t k = 0; k < s.targets.size(); ++k)
				x.targets.push_back({tgt((fs::path(s.path).parent_path() / s.targets[k]).string()), k == 0 ? T : std::vector<MDep>{}});
			m.n[at(s.path)] = x;
		}
		// targets
		std::map<std::string, MNode> gen;
		auto base = m.n;
		Model srcs;
		srcs.n = base;
		for(auto& x: base)
			for(auto& t: x.second.targets)
			{
				if(t.first == x.first) continue;
				if(gen.count(t.first)) { m.dup = true; continue; }
				MNode g;
				g.gen = true;
				g.use = t.second;
				auto reach = srcs.closure(x.first);
				reach.insert(x.first);
				for(auto& r: reach)
				{
					auto i = base.find(r);
					if(i == base.end()) continue;
					for(auto& e: i->second.extra) if(e.name != t.first) g.use.push_back(e);
				}
				g.build.push_back({x.first, "project", {}});
				gen[t.first] = g;
			}
		for(auto& g: gen) if(!m.n.count(g.first)) m.n[g.first] = g.second;
		// external placeholders
		std::set<std::string> ext;
		for(auto& x: m.n)
		{
			for(auto& d: x.second.use) if(d.origin == "system" || d.origin == "pkg-config") ext.insert(d.name);
			for(auto& t: x.second.targets) for(auto& d: t.second) if(d.origin == "system" || d.origin == "pkg-config") ext.insert(d.name);
		}
		for(auto& e: ext) if(!m.n.count(e)) { MNode x; x.ext = true; m.n[e] = x; }
		// sources that are linked depend on what their targets depend on
		for(auto& x: m.n)
			if(x.second.utd)
				for(auto& t: x.second.targets)
				{
					auto i = m.n.find(t.first);
					if(i != m.n.end() && i->first != x.first) { auto add = i->second.use; x.second.use.insert(x.second.use.end(), add.begin(), add.end()); }
				}
		for(auto& x: m.n)
			for(auto* v: {&x.second.use, &x.second.build})
				for(auto& d: *v) if(!m.n.count(d.name)) m.unresolved = true;
		for(auto& x: m.n) if(m.closure(x.first).count(x.first)) m.cyclic = true;
		return m;
	}

	// content a clean build gives to every target (and plain files)
	struct Contents
	{
		Model& m;
		World& w;
		std::map<std::string, std::string> memo;
		std::map<std::string, std::string> owner;
		Contents(Model& mm, World& ww): m(mm), w(ww) { for(auto& x: m.n) for(auto& t: x.second.targets) owner[t.first] = x.first; }
		std::string of(std::string const& name)
		{
			auto i = m.n.find(name);
			if(i == m.n.end()) return "<missing>";
			if(i->second.dir) return "<dir>";
			if(!i->second.gen) return w.get(name);
			auto k = memo.find(name);
			if(k != memo.end()) return k->second;
			auto const& src = owner[name];
			if(m.n[src].dir) return "<dir>";
			std::string s = "T(" + name + ")S(" + w.get(src) + ")C(" + m.n[src].cfg.dump() + ")";
			for(auto& d: m.closure(src))
			{
				auto& x = m.n[d];
				if(x.ext) continue;
				s += "D(" + d + "=" + hex(fnv(of(d))) + ")";
			}
			return memo[name] = "built " + hex(fnv(s)) + " of " + name + "\n";
		}
	};

	// ------------------------------------------------------------------ reporting
	inline std::string active_prop;
	inline bool on(char const* p) { return active_prop == p; }
	inline std::string describe(World& w)
	{
		std::string s = "project:\n";
		for(auto& f: w.snap()) if(f.first != "maikeconfig.json") s += "  " + f.first + " : " + f.second.substr(0, 300) + (f.second.empty() || f.second.back() != '\n' ? "\n" : "");
		return s;
	}
	inline void expect(char const* prop, bool ok, std::string const& tag, std::string const& msg, World& w, Run const* r = nullptr)
	{
		if(ok || active_prop != prop) return;
		mc::fail((tag).c_str(), msg + "\n" + describe(w) + (r ? "run:\n" + r->dump() : ""));
	}
	// written-out example for the evidence file
	inline void sample(std::string const& t)
	{
		auto r = mc::currentResult();
		if(!r->trace[0]) snprintf(r->trace, sizeof r->trace, "%s", t.c_str());
	}
	// a run that did not end properly violates termination (C02); for other properties the run cannot be judged
	inline bool ended(Run const& r) { return r.verdict == mc::V_OK; }
}
