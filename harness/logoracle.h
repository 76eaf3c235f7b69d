// What the build log must look like (C19).
#pragma once
#include "harness/common.h"

struct LogEntry { std::string cmd, path, mark; bool uptodate{false}; };

static std::string logBody(std::string const& out)
{
	// the log starts after the lines about the build job
	size_t i = 0;
	while(i < out.size() && out[i] == '#')
	{
		auto e = out.find('\n', i);
		if(e == std::string::npos) return "";
		i = e + 1;
	}
	return out.substr(i);
}

static std::string shown(std::string const& out)
{
	std::string r;
	bool nl = true;
	for(char c: out) { if(nl) r += " ... "; r += c; nl = c == '\n'; }
	if(!out.empty() && !nl) r += '\n';
	return r;
}

// one line of the log -> entry
static bool parseEntry(std::string line, bool cmd, LogEntry& e)
{
	if(cmd)
	{
		auto k = line.rfind(" # ");
		if(k == std::string::npos) return false;
		e.cmd = line.substr(0, k);
		line = line.substr(k + 2);
	}
	if(line.empty() || line[0] != ' ') return false;
	size_t i = 1;
	while(i < line.size() && isdigit((unsigned char)line[i])) ++i;
	if(i == 1) return false;
	auto lit = [&](std::string const& s) { if(line.compare(i, s.size(), s)) return false; i += s.size(); return true; };
	if(!lit(" | ")) return false;
	if(lit("✓")) e.mark = "ok"; else if(lit("✗")) e.mark = "failed"; else return false;
	if(!lit(" | ")) return false;
	auto b2 = line.rfind(" | ");
	if(b2 == std::string::npos || b2 <= i) return false;
	auto b1 = line.rfind(" | ", b2 - 1);
	if(b1 == std::string::npos || b1 < i) return false;
	e.path = line.substr(i, b1 - i);
	auto trim = [](std::string s) { while(!s.empty() && s.back() == ' ') s.pop_back(); while(!s.empty() && s[0] == ' ') s.erase(0, 1); return s; };
	auto t0 = trim(line.substr(b1 + 3, b2 - b1 - 3)), t1 = trim(line.substr(b2 + 3));
	auto num = [](std::string const& s) { if(s.empty()) return false; for(char c: s) if(!isdigit((unsigned char)c)) return false; return true; };
	if(t0 == "-" && t1 == "-") e.uptodate = true;
	else if(!num(t0) || !num(t1)) return false;
	return true;
}

// beh: how tasks behave; uptodate: tasks that are up to date before the build.  dry: nothing is run
static void judgeLog(World& w, Model& m, std::string const& level, std::map<std::string, Beh> const& beh, std::set<std::string> const& uptodate, Run const& r, bool dry = false)
{
	auto bad = [&](std::string const& tag, std::string const& msg) { expect("C19", false, tag, msg, w, &r); };
	if(!ended(r)) { bad("not-ended", "maike did not end: " + r.msg); return; }
	std::map<std::string, Inv const*> ran;
	for(auto c: r.compiles()) ran[norm(c->src())] = c;
	auto outOf = [&](std::string const& t) { auto b = beh.find(t); return ran.count(t) && b != beh.end() ? b->second.out : std::string(); };
	auto failedT = [&](std::string const& t) { auto i = ran.find(t); return i != ran.end() && (i->second->code || i->second->sig); };
	bool any_failed = false;
	for(auto& x: ran) if(failedT(x.first)) any_failed = true;
	for(auto& b: beh) if(b.second.noexec) any_failed = true;
	// error output: each block contiguous and complete
	for(auto& x: ran)
	{
		auto b = beh.find(x.first);
		if(b != beh.end() && !b->second.err.empty() && r.err.find(b->second.err) == std::string::npos) bad("stderr", "the error output of " + x.first + " is not reported unchanged in one piece");
	}
	auto body = logBody(r.out);
	if(level == "errors")
	{
		// nothing but what the recipes themselves print
		std::multiset<std::string> blocks;
		for(auto& x: ran) { auto s = shown(outOf(x.first)); if(!s.empty()) blocks.insert(s); }
		std::function<bool(size_t, std::multiset<std::string>)> match = [&](size_t at, std::multiset<std::string> left) {
			if(left.empty()) return at == body.size();
			std::set<std::string> tried;
			for(auto i = left.begin(); i != left.end(); ++i)
				if(tried.insert(*i).second && body.compare(at, i->size(), *i) == 0) { auto l2 = left; l2.erase(l2.find(*i)); if(match(at + i->size(), l2)) return true; }
			return false;
		};
		if(!match(0, blocks)) bad("errors-level", "the log is not just the output of the recipes");
		return;
	}
	bool cmd = level == "compilation_command";
	std::map<std::string, LogEntry> seen;
	size_t at = 0;
	while(at < body.size())
	{
		auto e = body.find('\n', at);
		if(e == std::string::npos) { bad("unterminated", "the last line of the log is not terminated"); return; }
		LogEntry x;
		auto line = body.substr(at, e - at);
		if(!parseEntry(line, cmd, x)) { bad("mixed", "no log entry starts at: " + line.substr(0, 200)); return; }
		at = e + 1;
		auto p = norm(x.path);
		if(!m.n.count(p) || !m.n[p].task()) { bad("unknown", "log entry for " + p + " which is no task"); return; }
		if(seen.count(p)) { bad("twice", "two log entries for " + p); return; }
		seen[p] = x;
		auto o = shown(outOf(p));
		if(body.compare(at, o.size(), o)) { bad("output", "the output of " + p + " does not follow its log entry unchanged"); return; }
		at += o.size();
		if(cmd && ran.count(p))
		{
			auto q = [](std::string const& s) { std::string t = "'"; for(char c: s) if(c == '\'') t += "'\\''"; else t += c; return t + "'"; };
			if(x.cmd.find(q(ran[p]->args[1])) == std::string::npos && x.cmd.find(ran[p]->args[1]) == std::string::npos && ran[p]->args[1].find('\'') == std::string::npos) { bad("command", "the log entry for " + p + " does not show its command"); return; }
		}
		bool should_utd = uptodate.count(p) && !ran.count(p);
		if(!dry && !ran.count(p) && !should_utd) { bad("claims", "the log has an entry for " + p + " which was not run and is not up to date"); return; }
		if(x.uptodate != (uptodate.count(p) && !ran.count(p))) { bad("up-to-date", p + (x.uptodate ? " is logged as up to date but is not" : " is not logged as up to date")); return; }
		if((x.mark == "failed") != failedT(p)) { bad("status", p + " is logged as " + x.mark); return; }
	}
	for(auto& t: ran) if(!seen.count(t.first)) { bad("missing", "no log entry for " + t.first + " which was run"); return; }
	if(!any_failed)
		for(auto& t: m.tasks()) if(!seen.count(t)) { bad("missing", "no log entry for " + t); return; }
}
