// The scanners of source text (C11, C12), on every sequence of text fragments and every way the text is read in pieces.
// Only the interface exercised by the repository's own unit tests is used.
#include "harness/common.h"
#include "harness/lexoracle.h"
#include "core/source_file_info_loaders/cxx/source_file_loader.hpp"
#include "core/source_file_info_loaders/extension/source_file_loader.hpp"

struct TextSource { std::string const* t; size_t pos{0}, first{0}, chunk{0}; };      // first piece, then pieces of the given size
static size_t read(TextSource& s, std::byte* b, size_t n)
{
	auto k = std::min(n, s.t->size() - s.pos);
	if(s.first) { k = std::min(k, s.first); s.first = 0; }
	else if(s.chunk) k = std::min(k, s.chunk);
	memcpy(b, s.t->data() + s.pos, k);
	s.pos += k;
	return k;
}
struct TextSink { std::string t; };
static void write(TextSink& s, std::byte const* b, size_t n) { s.t.append((char const*)b, n); }

static std::string show(std::string const& s)
{
	std::string r;
	for(char c: s) { if(c == '\n') r += "\\n"; else r += c; }
	return r.size() > 200 ? "..." + r.substr(r.size() - 200) : r;
}
static Cxx::SourceFileLoader const* cxx;
static Extension::SourceFileLoader const* ext;

static void oneDeps(std::string const& t, lex::Text const& want, size_t first, size_t chunk)
{
	TextSource src{&t, 0, first, chunk};
	auto d = cxx->getDependencies(Maike::Io::Reader{src});
	bool ok = d.size() == want.includes.size();
	for(size_t k = 0; ok && k < d.size(); ++k)
	{
		auto& n = want.includes[k].first;
		auto o = want.includes[k].second ? Maike::Db::SourceFileOrigin::System : n.size() >= 8 && n.substr(n.size() - 8) == ".gen.hpp" ? Maike::Db::SourceFileOrigin::Generated : Maike::Db::SourceFileOrigin::Project;
		ok = d[k].name().string() == n && d[k].expectedOrigin() == o;
	}
	if(ok) return;
	std::string m = "includes of [" + show(t) + "]:";
	for(auto& x: d) m += " " + x.name().string();
	m += " instead of:";
	for(auto& x: want.includes) m += " " + x.first;
	mc::fail("includes", m);
}
static void oneTags(std::string const& t, lex::Text const& want, bool hash, size_t first, size_t chunk)
{
	TextSource src{&t, 0, first, chunk};
	TextSink tags, source;
	if(hash) ext->filterInput(Maike::Io::Reader{src}, Maike::SourceFileInfoLoaders::SourceOutStream{source}, Maike::SourceFileInfoLoaders::TagsOutStream{tags});
	else cxx->filterInput(Maike::Io::Reader{src}, Maike::SourceFileInfoLoaders::SourceOutStream{source}, Maike::SourceFileInfoLoaders::TagsOutStream{tags});
	if(source.t != t) mc::fail("source", "the source passed on differs from [" + show(t) + "]");
	auto d = lex::tagDiff(want, tags.t);
	if(!d.empty()) mc::fail("tags", "tags of [" + show(t) + "]: " + d);
}
static void one(std::string const& t, int mode, int cuts)      // mode 0 includes, 1 tags, 2 tags after #
{
	auto want = mode == 2 ? lex::readHash(t) : lex::read(t);
	auto* res = mc::currentResult();
	++res->inner_states;
	if(want.unspecified) return;
	auto go = [&](std::string const& s, lex::Text const& w, size_t a, size_t b) { ++res->inner_steps; if(mode == 0) oneDeps(s, w, a, b); else oneTags(s, w, mode == 2, a, b); };
	go(t, want, 0, 0);
	if(cuts >= 1) go(t, want, 0, 1);
	if(cuts >= 2) for(size_t k = 1; k < t.size(); ++k) go(t, want, k, 0);
	if(cuts >= 3)
		for(size_t k = 0; k <= t.size(); ++k)
		{
			auto s = std::string(4096 - k, ' ') + t;
			go(s, mode == 2 ? lex::readHash(s) : lex::read(s), 0, 0);
		}
}
static void family(Scens& v, std::string name, Strs alpha, int len, int mode, int cuts)
{
	size_t n = ipow(alpha.size(), len);
	size_t per = std::max<size_t>(1000, n / 64);
	for(size_t a = 0; a < n; a += per)
	{
		Scenario s;
		s.name = name + std::to_string(len) + ":" + std::to_string(a);
		s.plain = true;
		s.timeout_s = 3000;
		s.body = [=]() {
			Cxx::SourceFileLoader c;
			Extension::SourceFileLoader e;
			cxx = &c;
			ext = &e;
			size_t b = std::min(n, a + per);
			for(size_t i = a; i < b; ++i)
			{
				std::string t;
				size_t q = i;
				for(int k = 0; k < len; ++k, q /= alpha.size()) t += alpha[q % alpha.size()];
				one(t, mode, cuts);
			}
			mc::finish(b - a);
		};
		v.push_back(s);
	}
}
int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		Strs common{"\n", " ", "/*", "*/", "**/", "//", "\"", "\\", "'", "R\"(", ")\"", "uR\"x(", ")x\"", "x", "1", "/", "*", ")"};
		if(g == "C11")
		{
			auto a = common;
			for(auto& x: Strs{"#include \"a\"", "#include <b>", "# include\t\"c.gen.hpp\"", "#endif", "#error \"d\"", "#", "include", "\"f\"", "<g>"}) a.push_back(x);
			for(int l = 1; l <= 4; ++l) family(v, "fragments", a, l, 0, l <= 2 ? 3 : l == 3 ? 2 : 1);
			family(v, "fragments", a, 5, 0, 0);
			Strs b{"\n", "/", "*", "\"", "\\", "'", "R", "(", ")", "x", "#include \"a\""};
			for(int l = 1; l <= 7; ++l) family(v, "characters", b, l, 0, 0);
			if(thorough()) { family(v, "fragments", a, 6, 0, 0); family(v, "characters", b, 8, 0, 0); family(v, "fragments", a, 3, 0, 3); }
		}
		if(g == "C12")
		{
			auto a = common;
			for(auto& x: Strs{"//@", "//@{ \"k\"", "@", "\t", "}"}) a.push_back(x);
			for(int l = 1; l <= 4; ++l) family(v, "fragments", a, l, 1, l <= 2 ? 3 : l == 3 ? 2 : 1);
			family(v, "fragments", a, 5, 1, 0);
			Strs b{"\n", "/", "*", "\"", "\\", "'", "R", "(", ")", "x", "//@t"};
			for(int l = 1; l <= 7; ++l) family(v, "characters", b, l, 1, 0);
			Strs h{"\n", " ", "\t", "#", "@", "#@", "x", "\"", "/*"};
			for(int l = 1; l <= 6; ++l) family(v, "hash", h, l, 2, l <= 3 ? 3 : 0);
			if(thorough()) { family(v, "fragments", a, 6, 1, 0); family(v, "characters", b, 8, 1, 0); family(v, "hash", h, 8, 2, 0); family(v, "fragments", a, 3, 1, 3); }
		}
		return v;
	});
}
