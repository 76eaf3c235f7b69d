// Reading and writing JSON (C13): every token sequence, every way to read it in two pieces, every truncation.
// Only the interface exercised by the repository's own unit tests is used.
#include "harness/common.h"
#include "harness/jsonoracle.h"
#include "core/key_value_store/compound.hpp"
#include <cmath>

struct Src2 { std::string const* t; size_t pos{0}, first{0}, chunk{0}; };
static size_t read(Src2& s, std::byte* b, size_t n)
{
	auto k = std::min(n, s.t->size() - s.pos);
	if(s.first) { k = std::min(k, s.first); s.first = 0; }
	else if(s.chunk) k = std::min(k, s.chunk);
	memcpy(b, s.t->data() + s.pos, k);
	s.pos += k;
	return k;
}
struct Out { std::string t; };
static void write(Out& o, char const* b, size_t n) { o.t.append(b, n); }

static std::string show(std::string const& s) { return "[" + (s.size() > 300 ? "..." + s.substr(s.size() - 300) : s) + "]"; }
static void one(std::string const& t, js::Read const& want, size_t first, size_t chunk, bool deep)
{
	++mc::currentResult()->inner_steps;
	Src2 src{&t, 0, first, chunk};
	bool thrown = false, valid = false;
	std::string what, text;
	try
	{
		auto h = Maike::KeyValueStore::jsonLoad(src, "the source");
		valid = h.valid();
		if(valid)
		{
			Out o;
			store(h, o, Maike::KeyValueStore::PrettyPrint{false});
			text = o.t;
			if(deep)
			{
				Out p;
				store(h, p);
				for(auto* x: {&o, &p})
				{
					Src2 again{&x->t};
					auto g = Maike::KeyValueStore::jsonLoad(again, "again");
					Out q;
					if(!g.valid()) mc::fail("round-trip", "writing " + show(t) + " gives " + show(x->t) + " which reads as nothing");
					store(g, q, Maike::KeyValueStore::PrettyPrint{false});
					if(q.t != o.t) mc::fail("round-trip", "writing " + show(t) + " and reading it back gives " + show(q.t));
				}
				auto back = js::read(p.t);
				if(back.kind != js::Good || !(back.value == want.value)) if(want.kind == js::Good) mc::fail("value", show(t) + " is written as " + show(p.t));
			}
		}
	}
	catch(std::exception const& e) { thrown = true; what = e.what(); }
	auto split = first ? " (cut at " + std::to_string(first) + ")" : "";
	switch(want.kind)
	{
		case js::Blank: if(thrown || valid) mc::fail("blank", show(t) + split + ": blank text was not read as nothing"); break;
		case js::Bad:
			if(!thrown) mc::fail("accepted", show(t) + split + ": malformed text was " + (valid ? "accepted as " + text : "read as nothing"));
			if(what.find("the source") == std::string::npos) mc::fail("unnamed", show(t) + ": the error does not name its source: " + what);
			break;
		case js::Good:
			if(thrown) mc::fail("refused", show(t) + split + ": well formed text was refused: " + what);
			if(!valid) mc::fail("nothing", show(t) + split + ": well formed text was read as nothing");
			{
				auto got = js::read(text);
				if(got.kind != js::Good || !(got.value == want.value)) mc::fail("value", show(t) + split + ": read as " + show(text));
			}
			break;
		default: break;
	}
}
static void all(std::string const& t, int cuts)
{
	++mc::currentResult()->inner_states;
	auto want = js::read(t);
	if(want.kind == js::Unspecified) return;
	one(t, want, 0, 0, want.kind == js::Good);
	if(cuts >= 1) one(t, want, 0, 1, false);
	if(cuts >= 2) for(size_t k = 1; k < t.size(); ++k) one(t, want, k, 0, false);
	if(cuts >= 3)
		for(size_t m: {1024, 4096})
			for(size_t k = 0; k <= t.size(); ++k)
			{
				auto s = std::string(m - k, ' ') + t;
				auto w = js::read(s);
				one(s, w, 0, 0, false);
				s = "[\"" + std::string(m - k - 2, 'y') + "\"," + t;
				w = js::read(s);
				if(w.kind != js::Unspecified) one(s, w, 0, 0, false);
			}
}
static void family(Scens& v, std::string name, Strs alpha, int len, int cuts, std::string pre = "", std::string post = "")
{
	size_t n = ipow(alpha.size(), len);
	size_t per = std::max<size_t>(500, n / 64);
	for(size_t a = 0; a < n; a += per)
	{
		Scenario s;
		s.name = name + std::to_string(len) + ":" + std::to_string(a);
		s.plain = true;
		s.timeout_s = 3000;
		s.body = [=]() {
			Maike::KeyValueStore::init();
			size_t b = std::min(n, a + per);
			for(size_t i = a; i < b; ++i)
			{
				std::string t = pre;
				size_t q = i;
				for(int k = 0; k < len; ++k, q /= alpha.size()) t += alpha[q % alpha.size()];
				all(t + post, cuts);
			}
			mc::finish(b - a);
		};
		v.push_back(s);
	}
}
int main(int argc, char** argv)
{
	return mc::harnessMain(argc, argv, [](std::string const& g, std::string const& t) {
		tier = t;
		active_prop = g;
		Scens v;
		if(g != "C13") return v;
		Strs a{"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "\"", "\\", "1", "-", "0", ".5", "e3", "true", "null", " ", "\n", "x"};
		for(int l = 0; l <= 4; ++l) family(v, "tokens", a, l, l <= 2 ? 3 : l == 3 ? 2 : 1);
		family(v, "tokens", a, 5, 0);
		family(v, "object", a, 4, 0, "{\"k\":", "}");
		family(v, "array", a, 4, 0, "[", "]");
		Strs c{"\"", "\\", "u", "0041", "d83d", "de00", "0000", "n", "/", "\xc3", "\xa5", "\xe2\x82\xac", "\xff", "\t", "q"};
		for(int l = 0; l <= 4; ++l) family(v, "string", c, l, l <= 2 ? 2 : 0, "[\"", "\"]");
		family(v, "string", c, 5, 0, "\"", "\"");
		Strs d{"-", "0", "1", "9223372036854775807", "9223372036854775808", ".", "e", "E", "+", "308", "5"};
		for(int l = 1; l <= 5; ++l) family(v, "number", d, l, 0, "[", "]");
		if(thorough()) { family(v, "tokens", a, 6, 0); family(v, "tokens", a, 4, 2); family(v, "tokens", a, 3, 3); family(v, "object", a, 5, 0, "{\"k\":", "}"); family(v, "string", c, 6, 0, "\"", "\""); family(v, "number", d, 6, 0, "[", "]"); }
		// every truncation of documents of different sizes, in all ways to read them in two pieces
		std::vector<std::string> docs{"{\"a\":[1,2.5,-3e4,true,false,null],\"b\":{\"c\":\"\\u00e5\\n\\\"x\",\"d\":{}},\"e\":[[],[[]]]}", "  [\n {\"name\" : \"value with spaces\"} , \"x\" ]\n\n",
			"{\"long\":\"" + std::string(5000, 'l') + "\",\"z\":[" + std::string(300, '[') + std::string(300, ']') + "]}"};
		for(size_t k = 0; k < docs.size(); ++k)
			for(size_t part = 0; part < 8; ++part)
			{
				Scenario s;
				s.name = "truncated" + std::to_string(k) + ":" + std::to_string(part);
				s.plain = true;
				s.timeout_s = 3000;
				auto doc = docs[k];
				s.body = [=]() { Maike::KeyValueStore::init(); for(size_t n = part; n <= doc.size(); n += 8) all(doc.substr(0, n), k < 2 ? 3 : 1); mc::finish(1); };
				v.push_back(s);
			}
		return v;
	});
}
