// Source texts and JSON texts as seen by a whole build: include directives (C11), tags (C12), JSON (C13).
#include "harness/common.h"
#include "harness/lexoracle.h"
#include "harness/jsonoracle.h"

static void project(World& w)
{
	w.put("maikeconfig.json", J::obj({{"maikeconfig", stdConfig()}}).dump(false));
	for(auto& r: stdRecipes()) w.put(r.first, r.second, true);
}
static std::string show(std::string const& s) { return "[" + (s.size() > 400 ? "..." + s.substr(s.size() - 400) : s) + "]"; }

// ------------------------------------------------------------------ C11
static void includes(World& w, std::string const& text)
{
	auto want = lex::read(text);
	if(want.unspecified) { --mc::currentResult()->inner_states; return; }
	project(w);
	for(auto n: {"a", "d", "f", "h.txt"}) w.put(n, "x\n");
	w.put("gen.x", "#@{\"target\":{\"name\":\"c.gen.hh\"}}\n");
	w.put("m.cc", "//@{\"target\":{\"name\":\"m.o\"}}\n" + text);
	auto r = build(w, {}, {});
	if(!ended(r)) { expect("C11", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	std::set<std::string> names, got;
	for(auto& x: want.includes)
		if(!x.second) names.insert(x.first == "c.gen.hh" ? "__targets/c.gen.hh generated" : norm(x.first) + " project");
	expect("C11", r.exit_code == 0, "refused", "a build with the source text " + show(text) + " failed", w, &r);
	bool seen = false;
	for(auto& q: r.invs)
		if(q.mode() == "compile" && norm(q.src()) == "m.cc")
		{
			seen = true;
			for(auto& d: q.j.at("dependencies").a)
			{
				auto n = norm(d.at("ref").s);
				if(fs::path(n).extension() == ".rcp" || n == "gen.x" || n == "." || d.at("origin").s == "system") continue;
				got.insert(n + " " + d.at("origin").s);
			}
		}
	expect("C11", seen, "not-compiled", "m.cc was not compiled", w, &r);
	std::string m = "the includes of " + show(text) + " are";
	for(auto& x: names) m += " " + x;
	m += " but the recipe got";
	for(auto& x: got) m += " " + x;
	// generated files and directories come with their own sources
	std::set<std::string> g2;
	for(auto& x: got) if(x.find("__targets ") == std::string::npos) g2.insert(x);
	expect("C11", g2 == names, "includes", m, w, &r);
	sample(text);
}

// ------------------------------------------------------------------ C12
static J tagsJson(lex::Text const& t, js::Kind& k)
{
	std::string s;
	for(size_t i = 0; i < t.tags.size(); ++i) s += (i ? "\n" : "") + t.tags[i];
	auto r = js::read(s);
	k = r.kind;
	return r.value;
}
static void judgeTags(World& w, std::string const& file, std::string const& text, lex::Text const& want)
{
	js::Kind kind;
	auto v = tagsJson(want, kind);
	if(kind == js::Unspecified) { --mc::currentResult()->inner_states; return; }
	project(w);
	w.put(file, text);
	auto r = build(w, {}, {});
	if(!ended(r)) { expect("C12", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	bool bad = kind == js::Bad || (kind == js::Good && v.t != J::Obj);
	if(bad)
	{
		expect("C12", r.exit_code != 0, "accepted", "malformed tags in " + show(text) + " were accepted", w, &r);
		expect("C12", r.err.find(file) != std::string::npos, "unnamed", "the file with malformed tags is not named", w, &r);
		expect("C12", r.compiles().empty(), "built", "something was built", w, &r);
		return;
	}
	std::multiset<std::string> t, got;
	if(v.t == J::Obj && v.has("target")) t.insert("__targets/" + v.at("target").at("name").s);
	if(v.t == J::Obj && v.has("targets")) for(auto& x: v.at("targets").a) t.insert("__targets/" + x.at("name").s);
	expect("C12", r.exit_code == 0, "refused", "a build with the source text " + show(text) + " failed", w, &r);
	for(auto& q: r.invs) if(q.mode() == "compile" && norm(q.src()) == file) for(auto& x: q.j.at("targets").a) got.insert(norm(x.s));
	expect("C12", t == got, "targets", "the targets declared by " + show(text) + " are not those built:" + cdiff(t, got), w, &r);
	sample(text);
}
static void where(World& w, std::string const& file, std::string const& text, size_t line)
{
	project(w);
	w.put(file, text);
	auto r = build(w, {}, {});
	if(!ended(r)) { expect("C12", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	expect("C12", r.exit_code != 0 && r.err.find(file + ":" + std::to_string(line) + ":") != std::string::npos, "line", "malformed tags on line " + std::to_string(line) + " of " + show(text) + " are not reported there", w, &r);
}

// ------------------------------------------------------------------ C13
static void answer(World& w, std::string const& text, int writes)
{
	auto want = js::read(text);
	if(want.kind == js::Unspecified || text.empty()) { --mc::currentResult()->inner_states; return; }
	project(w);
	w.put("a.x", "#@{\"target\":{\"name\":\"a.t\"}}\n");
	auto r = build(w, {}, [&](Inv const& i) { Beh b; if(i.mode() == "configure" && fs::path(i.path).filename() == "x.rcp") { b.set_out = true; b.out = text; } return b; });
	(void)writes;
	if(!ended(r)) { expect("C13", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	if(want.kind == js::Bad || (want.kind == js::Good && want.value.t != J::Obj))
	{
		expect("C13", r.exit_code != 0 && r.compiles().empty(), "accepted", "a recipe that prints " + show(text) + " as its configuration was accepted", w, &r);
		return;
	}
	expect("C13", r.exit_code == 0, "refused", "the build failed with a recipe that prints " + show(text) + " as its configuration", w, &r);
	J cfg = want.kind == js::Blank ? J::obj() : want.value;
	for(auto& q: r.invs) if(q.mode() == "compile" && norm(q.src()) == "a.x") expect("C13", q.j.at("compiler_cfg") == cfg, "value", "the configuration " + show(text) + " arrives as " + q.j.at("compiler_cfg").dump(), w, &r);
}
static void rule(World& w, std::string const& text)      // a file that consists of JSON
{
	auto want = js::read(text);
	if(want.kind == js::Unspecified) { --mc::currentResult()->inner_states; return; }
	bool odd = false;
	if(want.kind == js::Good && want.value.t == J::Obj) for(auto& kv: want.value.o) if(kv.first != "a" && kv.first != "b" && kv.first != "target") odd = true;
	if(odd) { --mc::currentResult()->inner_states; return; }
	project(w);
	w.put("r.rule", text);
	w.put("a.x", "#@{\"target\":{\"name\":\"a.t\"}}\n");
	auto r = build(w, {}, {});
	if(!ended(r)) { expect("C13", false, "not-ended", "maike did not end: " + r.msg, w, &r); return; }
	bool bad = want.kind == js::Bad || (want.kind == js::Good && want.value.t != J::Obj);
	expect("C13", bad == (r.exit_code != 0), bad ? "accepted" : "refused", "a rule file with the text " + show(text) + " was " + (bad ? "accepted" : "refused"), w, &r);
	if(bad)
	{
		expect("C13", r.err.find("r.rule") != std::string::npos, "unnamed", "the malformed file is not named", w, &r);
		expect("C13", r.compiles().empty(), "built", "something was built", w, &r);
		return;
	}
	bool has = want.value.t == J::Obj && want.value.has("target");
	expect("C13", r.compiled().count("r.rule") == (has ? 1 : 0), "value", "the target of the rule " + show(text) + " was " + (has ? "lost" : "invented"), w, &r);
}

static std::string word(Strs const& a, int len, size_t i) { std::string t; for(int k = 0; k < len; ++k, i /= a.size()) t += a[i % a.size()]; return t; }
static void words(Scens& v, std::string const& name, Strs a, int from, int to, std::function<void(World&, std::string const&)> f)
{
	for(int l = from; l <= to; ++l) batch(v, name + std::to_string(l), ipow(a.size(), l), 64, [=](World& w, size_t i) { f(w, word(a, l, i)); });
}

int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g == "C11")
		{
			Strs a{"\n", " ", "/*", "*/", "**/", "//", "\"", "\\", "'", "R\"(", ")\"", "#include \"a\"", "#include <b>", "# include\t\"c.gen.hh\"", "#endif", "#error \"d\"", "#include\"./f\""};
			words(v, "text", a, 0, thorough() ? 4 : 3, includes);
			// at the borders of the buffers between the file and the scanner
			std::vector<size_t> at;
			for(size_t b: {4096, 8192, 16384, 65536, 131072}) for(int d = -48; d < 2; ++d) at.push_back(b + d - 30);
			for(int k = 0; k < 4; ++k)
				batch(v, "border" + std::to_string(k), at.size(), 25, [at, k](World& w, size_t i) {
					std::string t;
					auto n = at[i];
					if(k == 0) t = std::string(n, '\n');
					if(k == 1) t = "//" + std::string(n - 3, 'x') + "\n";
					if(k == 2) t = "/*" + std::string(n - 4, '*') + "*/";
					if(k == 3) t = "R\"(" + std::string(n - 6, ')') + ")\"\n";
					includes(w, t + "#include \"a\"\n/* */ #include <b>\n#include \"c.gen.hh\"\n");
				});
		}
		if(g == "C12")
		{
			Strs junk{"", "\n", " ", "x\n", "/*\n", "*/\n", "/***/\n", "//y/*\n", "\"/*\"\n", "\"//@\"\n", "'\"'\n", "R\"(\n", ")\"\n", "x //@z\n", "/* */ //@z\n", "//\n", "\t", "1'0\n", "//@\n", "//@}\n"};
			size_t n = junk.size();
			batch(v, "cxx", n * n * n, 64, [junk, n](World& w, size_t i) {
				auto s = junk[i % n] + "//@{\"target\":\n" + junk[i / n % n] + "//@{\"name\":\"m.o\"}\n" + junk[i / n / n] + "//@}\n";
				auto r = lex::read(s);
				if(r.unspecified) { --mc::currentResult()->inner_states; return; }
				judgeTags(w, "m.cc", s, r);
			});
			Strs hj{"", "\n", " ", "x\n", "\"\n", "x #@z\n", "\t", "#\n", "#@\n", "#@}\n", "# @z\n", "/*\n"};
			size_t h = hj.size();
			batch(v, "hash", h * h * h, 64, [hj, h](World& w, size_t i) {
				auto s = hj[i % h] + "#@{\"target\":\n" + hj[i / h % h] + "#@{\"name\":\"m.o\"}\n" + hj[i / h / h] + "#@}\n";
				judgeTags(w, "m.x", s, lex::readHash(s));
			});
			// where an error is reported
			batch(v, "line-cxx", n * n, 64, [junk, n](World& w, size_t i) {
				auto pre = junk[i % n] + "//@{\"target\":{\"name\":\"m.o\"},\n" + junk[i / n];
				auto s = pre + "//@ ?\n";
				auto r = lex::read(s);
				auto whole = pre + "//@\"k\":1}\n";
				js::Kind k;
				if(!r.unspecified && r.is_tag[r.is_tag.size() - 2]) tagsJson(lex::read(whole), k);
				else k = js::Bad;
				if(k != js::Good) { --mc::currentResult()->inner_states; return; }
				where(w, "m.cc", s, r.tags.size() - 1);
			});
			// long tags
			std::vector<size_t> at;
			for(size_t b: {4096, 8192, 65536, 131072}) for(int d = -40; d < 3; ++d) at.push_back(b + d);
			for(int k = 0; k < 4; ++k)
				batch(v, "border" + std::to_string(k), at.size(), 25, [at, k](World& w, size_t i) {
					auto m = at[i];
					std::string tag = "{\"target\":{\"name\":\"m.o\"}}";
					std::string s;
					if(k == 0) s = std::string(m - 20, '\n') + "//@" + tag + "\nint x;\n";
					if(k == 1) s = "//@" + std::string(m - 20, ' ') + tag + "\nint x;\n";
					if(k == 2) s = "//@" + tag + "\n" + std::string(m, 'x') + "\n//@ \n";
					if(k == 3) { s = std::string(m - 20, ' ') + tag; lex::Text t; t.tags = {s}; judgeTags(w, "m.rule", s, t); return; }
					judgeTags(w, "m.cc", s, lex::read(s));
				});
		}
		if(g == "C13")
		{
			Strs a{"{", "}", "[", "]", ",", ":", "\"a\"", "\"", "1", "true", " ", "\n", "x", "{\"a\":"};
			words(v, "answer", a, 1, 3, [](World& w, std::string const& s) { answer(w, s, 0); });
			batch(v, "answer-value", ipow(a.size(), 3), 64, [a](World& w, size_t i) { answer(w, "{\"k\":" + word(a, 3, i) + "}", 0); });
			a.push_back("\"target\":{\"name\":\"r.t\"}");
			words(v, "rule", a, 0, 3, rule);
			std::string doc = "{\"k\":[1,2.5,-3e4,true,false,null],\"b\":{\"c\":\"\\u00e5\\n\\\"x\",\"d\":{}}, \"e\":[[],[[]]]}";
			batch(v, "answer-truncated", doc.size() + 1, 16, [doc](World& w, size_t i) { answer(w, doc.substr(0, i), 0); });
			std::string rdoc = " {\"a\":[1,2.5,-3e4,true,false,null],\"target\":{\"name\":\"r.t\"}, \"b\":[[],[[]]]}\n";
			batch(v, "rule-truncated", rdoc.size() + 1, 16, [rdoc](World& w, size_t i) { rule(w, rdoc.substr(0, i)); });
			if(thorough()) { words(v, "answer", a, 4, 4, [](World& w, std::string const& s) { answer(w, s, 0); }); words(v, "rule", a, 4, 4, rule); }
		}
		return v;
	});
}
