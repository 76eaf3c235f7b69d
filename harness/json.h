// Minimal independent JSON reader/writer used by oracles and virtual recipes.
#pragma once
#include <string>
#include <vector>
#include <map>
#include <cstdlib>
#include <cstring>
#include <cstdio>
#include <stdexcept>

struct J
{
	enum T { Null, Bool, Int, Real, Str, Arr, Obj } t{Null};
	long long i{0};
	double d{0};
	std::string s;
	std::vector<J> a;
	std::vector<std::pair<std::string, J>> o;
	J() = default;
	J(std::string v): t(Str), s(std::move(v)) {}
	J(char const* v): t(Str), s(v) {}
	J(long long v): t(Int), i(v) {}
	J(int v): t(Int), i(v) {}
	static J arr(std::vector<J> v = {}) { J x; x.t = Arr; x.a = std::move(v); return x; }
	static J obj(std::vector<std::pair<std::string, J>> v = {}) { J x; x.t = Obj; x.o = std::move(v); return x; }
	static J boolean(bool b) { J x; x.t = Bool; x.i = b; return x; }
	J const* find(std::string const& k) const { for(auto& p: o) if(p.first == k) return &p.second; return nullptr; }
	J const& at(std::string const& k) const { auto p = find(k); if(!p) throw std::runtime_error("missing key " + k); return *p; }
	J& set(std::string const& k, J v) { t = Obj; for(auto& p: o) if(p.first == k) { p.second = std::move(v); return *this; } o.emplace_back(k, std::move(v)); return *this; }
	bool has(std::string const& k) const { return find(k) != nullptr; }
	std::string dump(bool sorted = true) const
	{
		switch(t)
		{
			case Null: return "null";
			case Bool: return i ? "true" : "false";
			case Int: return std::to_string(i);
			case Real: { char b[64]; snprintf(b, 64, "%.17g", d); return b; }
			case Str: return quote(s);
			case Arr: { std::string r = "["; for(size_t k = 0; k < a.size(); ++k) { if(k) r += ","; r += a[k].dump(sorted); } return r + "]"; }
			case Obj:
			{
				std::string r = "{";
				if(sorted) { std::map<std::string, J const*> m; for(auto& p: o) m[p.first] = &p.second; bool f = true; for(auto& p: m) { if(!f) r += ","; f = false; r += quote(p.first) + ":" + p.second->dump(sorted); } }
				else { bool f = true; for(auto& p: o) { if(!f) r += ","; f = false; r += quote(p.first) + ":" + p.second.dump(sorted); } }
				return r + "}";
			}
		}
		return "";
	}
	static std::string quote(std::string const& s)
	{
		std::string r = "\"";
		for(unsigned char c: s)
		{
			if(c == '"' || c == '\\') { r += '\\'; r += c; }
			else if(c == '\n') r += "\\n";
			else if(c == '\t') r += "\\t";
			else if(c < 32 || c == 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
			else r += (char)c;
		}
		return r + "\"";
	}
	bool operator==(J const& b) const { return dump() == b.dump(); }
};

struct JParser
{
	char const* p; char const* e;
	std::string err;
	void ws() { while(p < e && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) ++p; }
	bool lit(char const* s) { size_t n = strlen(s); if((size_t)(e - p) >= n && !memcmp(p, s, n)) { p += n; return true; } return false; }
	bool value(J& v, int depth = 0)
	{
		ws();
		if(p >= e) { err = "premature end"; return false; }
		if(*p == '{')
		{
			++p; v = J::obj(); ws();
			if(p < e && *p == '}') { ++p; return true; }
			while(true)
			{
				ws();
				J k;
				if(p >= e || *p != '"' || !str(k)) { err = "key expected"; return false; }
				ws();
				if(p >= e || *p != ':') { err = "colon expected"; return false; }
				++p;
				J x;
				if(!value(x, depth + 1)) return false;
				v.set(k.s, std::move(x));
				ws();
				if(p < e && *p == ',') { ++p; continue; }
				if(p < e && *p == '}') { ++p; return true; }
				err = "} expected";
				return false;
			}
		}
		if(*p == '[')
		{
			++p; v = J::arr(); ws();
			if(p < e && *p == ']') { ++p; return true; }
			while(true)
			{
				J x;
				if(!value(x, depth + 1)) return false;
				v.a.push_back(std::move(x));
				ws();
				if(p < e && *p == ',') { ++p; continue; }
				if(p < e && *p == ']') { ++p; return true; }
				err = "] expected";
				return false;
			}
		}
		if(*p == '"') return str(v);
		if(lit("true")) { v = J::boolean(true); return true; }
		if(lit("false")) { v = J::boolean(false); return true; }
		if(lit("null")) { v = J(); return true; }
		return num(v);
	}
	bool num(J& v)
	{
		char const* b = p;
		if(p < e && *p == '-') ++p;
		if(p >= e || !isdigit((unsigned char)*p)) { err = "bad token"; return false; }
		if(*p == '0') ++p; else while(p < e && isdigit((unsigned char)*p)) ++p;
		bool real = false;
		if(p < e && *p == '.') { char const* q = p + 1; if(q >= e || !isdigit((unsigned char)*q)) { err = "bad number"; return false; } p = q; while(p < e && isdigit((unsigned char)*p)) ++p; real = true; }
		if(p < e && (*p == 'e' || *p == 'E')) { char const* q = p + 1; if(q < e && (*q == '+' || *q == '-')) ++q; if(q >= e || !isdigit((unsigned char)*q)) { err = "bad number"; return false; } p = q; while(p < e && isdigit((unsigned char)*p)) ++p; real = true; }
		std::string t(b, p);
		if(real) { v = J(); v.t = J::Real; v.d = atof(t.c_str()); }
		else v = J((long long)atoll(t.c_str()));
		return true;
	}
	bool str(J& v)
	{
		++p;
		v = J("");
		while(p < e && *p != '"')
		{
			unsigned char c = *p++;
			if(c < 32) { err = "control character"; return false; }
			if(c == '\\')
			{
				if(p >= e) { err = "end in string"; return false; }
				char x = *p++;
				switch(x)
				{
					case 'n': v.s += '\n'; break;
					case 't': v.s += '\t'; break;
					case 'r': v.s += '\r'; break;
					case 'b': v.s += '\b'; break;
					case 'f': v.s += '\f'; break;
					case '/': case '\\': case '"': v.s += x; break;
					case 'u':
					{
						if(e - p < 4) { err = "bad \\u"; return false; }
						unsigned k = strtoul(std::string(p, p + 4).c_str(), nullptr, 16);
						p += 4;
						if(k < 0x80) v.s += (char)k;
						else if(k < 0x800) { v.s += (char)(0xc0 | k >> 6); v.s += (char)(0x80 | (k & 63)); }
						else { v.s += (char)(0xe0 | k >> 12); v.s += (char)(0x80 | (k >> 6 & 63)); v.s += (char)(0x80 | (k & 63)); }
						break;
					}
					default: err = "bad escape"; return false;
				}
			}
			else v.s += (char)c;
		}
		if(p >= e) { err = "end in string"; return false; }
		++p;
		return true;
	}
};
inline bool parseJson(std::string const& s, J& v) { JParser p{s.data(), s.data() + s.size(), ""}; if(!p.value(v)) return false; p.ws(); return p.p == p.e; }
