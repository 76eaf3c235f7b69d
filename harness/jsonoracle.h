// Strict reading of JSON text: blank, a value (and where it ends), or malformed.
#pragma once
#include "harness/json.h"
#include <cmath>
#include <cerrno>

namespace js
{
	enum Kind { Blank, Good, Bad, Unspecified };
	struct Read { Kind kind; J value; size_t end; };
	struct Rd
	{
		std::string const& t;
		size_t p{0};
		bool unspec{false};
		void ws() { while(p < t.size() && strchr(" \t\n\r", t[p]) && t[p]) ++p; }
		static bool utf8(std::string const& s)
		{
			for(size_t k = 0; k < s.size();)
			{
				unsigned char c = s[k];
				int n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
				if(!n || k + n > s.size()) return false;
				unsigned v = n == 1 ? c : c & (0xff >> (n + 1));
				for(int q = 1; q < n; ++q) { unsigned char d = s[k + q]; if((d & 0xc0) != 0x80) return false; v = v << 6 | (d & 63); }
				if((n == 3 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (n == 4 && (v < 0x10000 || v > 0x10ffff))) return false;
				k += n;
			}
			return true;
		}
		bool hex(unsigned& v)
		{
			if(p + 4 > t.size()) return false;
			v = 0;
			for(int k = 0; k < 4; ++k) { char c = t[p + k]; if(!isxdigit((unsigned char)c)) return false; v = v * 16 + (isdigit((unsigned char)c) ? c - '0' : (c | 32) - 'a' + 10); }
			p += 4;
			return true;
		}
		static void put(std::string& s, unsigned v)
		{
			if(v < 0x80) s += (char)v;
			else if(v < 0x800) { s += (char)(0xc0 | v >> 6); s += (char)(0x80 | (v & 63)); }
			else if(v < 0x10000) { s += (char)(0xe0 | v >> 12); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); }
			else { s += (char)(0xf0 | v >> 18); s += (char)(0x80 | (v >> 12 & 63)); s += (char)(0x80 | (v >> 6 & 63)); s += (char)(0x80 | (v & 63)); }
		}
		bool str(std::string& s)
		{
			++p;
			for(;;)
			{
				if(p >= t.size()) return false;
				unsigned char c = t[p++];
				if(c == '"') break;
				if(c < 32) return false;
				if(c != '\\') { s += (char)c; continue; }
				if(p >= t.size()) return false;
				c = t[p++];
				if(c == 'u')
				{
					unsigned v, l;
					if(!hex(v)) return false;
					if(v == 0) return false;      // strings cannot carry NUL
					if(v >= 0xdc00 && v < 0xe000) return false;
					if(v >= 0xd800 && v < 0xdc00)
					{
						if(t.compare(p, 2, "\\u") != 0) return false;
						p += 2;
						if(!hex(l) || l < 0xdc00 || l >= 0xe000) return false;
						v = 0x10000 + ((v - 0xd800) << 10) + (l - 0xdc00);
					}
					put(s, v);
					continue;
				}
				char const* f = strchr("\"\"\\\\//b\bf\fn\nr\rt\t", c);
				static std::map<char, char> const m{{'"', '"'}, {'\\', '\\'}, {'/', '/'}, {'b', '\b'}, {'f', '\f'}, {'n', '\n'}, {'r', '\r'}, {'t', '\t'}};
				(void)f;
				auto i = m.find(c);
				if(i == m.end()) return false;
				s += i->second;
			}
			return utf8(s);
		}
		bool value(J& v)
		{
			ws();
			if(p >= t.size()) return false;
			char c = t[p];
			if(c == '{')
			{
				++p;
				v = J::obj();
				ws();
				if(p < t.size() && t[p] == '}') { ++p; return true; }
				for(;;)
				{
					ws();
					if(p >= t.size() || t[p] != '"') return false;
					std::string k;
					if(!str(k) || v.has(k)) return false;
					ws();
					if(p >= t.size() || t[p] != ':') return false;
					++p;
					J x;
					if(!value(x)) return false;
					v.set(k, x);
					ws();
					if(p >= t.size()) return false;
					if(t[p] == ',') { ++p; continue; }
					if(t[p] != '}') return false;
					++p;
					return true;
				}
			}
			if(c == '[')
			{
				++p;
				v = J::arr();
				ws();
				if(p < t.size() && t[p] == ']') { ++p; return true; }
				for(;;)
				{
					J x;
					if(!value(x)) return false;
					v.a.push_back(x);
					ws();
					if(p >= t.size()) return false;
					if(t[p] == ',') { ++p; continue; }
					if(t[p] != ']') return false;
					++p;
					return true;
				}
			}
			if(c == '"') { v = J(""); return str(v.s); }
			if(isalpha((unsigned char)c))
			{
				std::string w;
				while(p < t.size() && isalpha((unsigned char)t[p])) w += t[p++];
				if(w == "true" || w == "false") v = J::boolean(w == "true");
				else if(w == "null") v = J();
				else return false;
				return true;
			}
			size_t b = p;
			bool real = false;
			auto digits = [&]() { size_t q = p; while(p < t.size() && isdigit((unsigned char)t[p])) ++p; return p > q; };
			if(t[p] == '-') ++p;
			size_t first = p;
			if(!digits()) return false;
			if(t[first] == '0' && p > first + 1) return false;
			if(p < t.size() && t[p] == '.') { real = true; ++p; if(!digits()) return false; }
			if(p < t.size() && (t[p] == 'e' || t[p] == 'E')) { real = true; ++p; if(p < t.size() && (t[p] == '+' || t[p] == '-')) ++p; if(!digits()) return false; }
			auto s = t.substr(b, p - b);
			errno = 0;
			if(real) { v = J(); v.t = J::Real; v.d = strtod(s.c_str(), nullptr); if(v.d == HUGE_VAL || v.d == -HUGE_VAL) return false; }
			else { v = J(strtoll(s.c_str(), nullptr, 10)); if(errno == ERANGE) return false; }
			return true;
		}
	};
	inline Read read(std::string const& t)
	{
		bool b = true;
		for(char c: t) if((unsigned char)c > ' ') b = false;
		if(b) return {Blank, J(), 0};
		Rd r{t};
		J v;
		if(!r.value(v)) return {Bad, J(), 0};
		// a word or number that runs into other text is not clearly one or the other
		if(v.t != J::Obj && v.t != J::Arr && v.t != J::Str && r.p < t.size() && ((unsigned char)t[r.p] > ' ')) return {Unspecified, J(), 0};
		return {Good, v, r.p};
	}
}
