// What a C++ source text says: its include directives and its tags, by a direct reading of the lexical rules.
#pragma once
#include <string>
#include <vector>
#include <set>

namespace lex
{
	struct Text
	{
		std::vector<std::pair<std::string, bool>> includes;      // name, system
		std::vector<std::string> tags;                           // per line: text expected, "" = blank
		std::vector<bool> is_tag;
		bool unspecified{false};                                 // not a text C++ gives a meaning to
	};
	inline bool word(char c) { return isalnum((unsigned char)c) || c == '_'; }
	inline bool blank(char c) { return (unsigned char)c <= ' '; }

	inline Text read(std::string const& t)
	{
		Text r;
		r.tags.push_back("");
		r.is_tag.push_back(false);
		size_t p = 0, n = t.size(), line = 0;
		bool first = true, fresh = true;      // only blanks and comments / only blanks on this line so far
		auto newline = [&]() { r.tags.push_back(""); r.is_tag.push_back(false); };
		auto pass = [&](size_t to) { for(; p < to && p < n; ++p) if(t[p] == '\n') { newline(); line = p + 1; } };
		auto comment = [&]() {      // at "/*"
			auto e = t.find("*/", p + 2);
			if(e == std::string::npos) { r.unspecified = r.unspecified; pass(n); }
			else pass(e + 2);
			fresh = false;
		};
		auto blanks = [&]() {      // blanks and comments up to the end of the line; false: nothing more on this line
			while(p < n)
			{
				if(t[p] == '\n') return false;
				if(blank(t[p])) ++p;
				else if(t.compare(p, 2, "/*") == 0) comment();
				else return true;
			}
			return false;
		};
		while(p < n)
		{
			char c = t[p];
			if(c == '\n') { pass(p + 1); first = fresh = true; continue; }
			if(blank(c)) { ++p; continue; }
			if(c == '\\' && p + 1 < n && t[p + 1] == '\n') r.unspecified = true;
			if(t.compare(p, 2, "//") == 0)
			{
				auto e = t.find('\n', p);
				if(e == std::string::npos) e = n;
				if(e > p && t[e - 1] == '\\' && e < n) r.unspecified = true;
				if(fresh && t.compare(p, 3, "//@") == 0)
				{
					r.tags.back() = t.substr(line, p - line) + "   " + t.substr(p + 3, e - p - 3);
					r.is_tag.back() = true;
				}
				p = e;
				continue;
			}
			if(t.compare(p, 2, "/*") == 0) { comment(); continue; }
			fresh = false;
			if(c == '#' && first)
			{
				first = false;
				++p;
				if(!blanks()) continue;
				std::string d;
				while(p < n && word(t[p])) d += t[p++];
				if(d != "include") continue;
				if(!blanks()) continue;
				if(t[p] != '"' && t[p] != '<') continue;
				auto e = t.find(t[p] == '"' ? '"' : '>', p + 1);
				auto l = t.find('\n', p);
				if(e == std::string::npos || (l != std::string::npos && l < e)) { p = l == std::string::npos ? n : l; r.unspecified = true; continue; }
				r.includes.push_back({t.substr(p + 1, e - p - 1), t[p] == '<'});
				p = e + 1;
				continue;
			}
			first = false;
			if(word(c))
			{
				std::string w;
				bool number = isdigit((unsigned char)c);
				while(p < n && (word(t[p]) || (number && t[p] == '\'' && p + 1 < n && word(t[p + 1])))) w += t[p++];
				static std::set<std::string> const raw{"R", "LR", "uR", "UR", "u8R"};
				if(p < n && t[p] == '"' && raw.count(w))
				{
					auto o = t.find('(', p);
					auto d = o == std::string::npos ? t.substr(p + 1) : t.substr(p + 1, o - p - 1);
					if(o == std::string::npos || d.size() > 16 || d.find_first_of(")\\\" \t\n\v\f\r") != std::string::npos) { r.unspecified = true; return r; }
					auto e = t.find(")" + d + "\"", o + 1);
					if(e == std::string::npos) pass(n);
					else pass(e + d.size() + 2);
				}
				else if(number && p < n && t[p] == '\'') r.unspecified = true;
				continue;
			}
			if(c == '"' || c == '\'')
			{
				for(++p; p < n && t[p] != c && t[p] != '\n'; ++p)
					if(t[p] == '\\' && p + 1 < n)
					{
						++p;
						if(t[p] == '\n') { newline(); line = p + 1; if(p >= 2 && t[p - 2] == '\\') r.unspecified = true; }
						else if(t[p] == '\\' && p + 1 < n && t[p + 1] == '\n') r.unspecified = true;
					}
				if(p < n && t[p] == c) ++p;
				else r.unspecified = true;
				continue;
			}
			++p;
		}
		return r;
	}

	// blank lines may carry blanks
	inline std::string tagDiff(Text const& want, std::string const& got)
	{
		std::vector<std::string> l{""};
		for(char c: got) if(c == '\n') l.push_back(""); else l.back() += c;
		if(l.size() != want.tags.size()) return std::to_string(l.size()) + " lines instead of " + std::to_string(want.tags.size());
		for(size_t k = 0; k < l.size(); ++k)
		{
			if(want.is_tag[k] ? l[k] != want.tags[k] : l[k].find_first_not_of(std::string("\0\1\2\3\4\5\6\7\10\11\13\14\15\16\17\20\21\22\23\24\25\26\27\30\31\32\33\34\35\36\37\40", 32)) != std::string::npos)
				return "line " + std::to_string(k + 1) + " is '" + l[k] + "' instead of '" + want.tags[k] + "'";
		}
		return "";
	}

	// the same for files in which # starts a line comment and nothing else has a meaning
	inline Text readHash(std::string const& t)
	{
		Text r;
		std::string cur;
		auto flush = [&]() {
			size_t k = 0;
			while(k < cur.size() && blank(cur[k])) ++k;
			bool tag = cur.compare(k, 2, "#@") == 0;
			r.is_tag.push_back(tag);
			r.tags.push_back(tag ? cur.substr(0, k) + "  " + cur.substr(k + 2) : "");
			cur.clear();
		};
		for(char c: t) if(c == '\n') flush(); else cur += c;
		flush();
		return r;
	}
}
