// How the programs' command lines are read: an independent reading of a list of arguments.
#pragma once
#include <map>
#include <string>
#include <vector>
namespace cmd {
typedef std::string B;
enum Kind { FLAG, STRING, NUMBER };
struct Opt { char s; B l; Kind kind; bool many; };
enum Verdict { FINE, REFUSED, HELP, OPEN }; // HELP: it only informs; OPEN: not specified
struct Line {
	Verdict v = FINE;
	std::map<B, std::vector<B>> val; // by long name; flags: one empty value for each time
	bool has(const B &l) const { return val.count(l); }
	B get(const B &l) const { auto i = val.find(l); return i == val.end() || i->second.empty() ? B() : i->second.back(); }
};
static inline bool is_number(const B &s) { return !s.empty() && s.find_first_not_of("0123456789+-.") == B::npos; }
static inline Line read(const std::vector<Opt> &opts, const std::vector<B> &a)
{
	Line r;
	bool refused = false, open = false, ended = false;
	std::vector<const Opt *> want; // values still to come
	size_t got = 0;
	static const char *built_in[] = {"argv-display", "argv-file", "help", "usage", "usage-short", "usage-long", "usage-all", "version"};
	auto use = [&](const Opt &o, bool joined, const B &v) {
		if (o.l == "help" && !joined) r.v = HELP;
		if (joined) {
			if (o.kind == FLAG) open = true; // -d=3
			else r.val[o.l].push_back(v);
		} else if (o.kind == FLAG) r.val[o.l].push_back("");
		else want.push_back(&o);
	};
	for (size_t i = 1; i < a.size(); i++) {
		B s = a[i];
		if (!ended && s == "--") { ended = true; continue; }
		bool lng = !ended && s.compare(0, 2, "--") == 0, shrt = !ended && !lng && s.size() > 1 && s[0] == '-';
		if (lng || shrt) {
			size_t eq = s.find('=');
			bool joined = eq != B::npos;
			B v = joined ? s.substr(eq + 1) : B(), n = s.substr(0, eq).substr(lng ? 2 : 1);
			if (joined && eq < (lng ? 2u : 1u)) { open = true; continue; }
			if (n.empty()) { refused = true; continue; }
			if (lng) {
				std::vector<const Opt *> m;
				for (auto &o : opts) if (o.l.compare(0, n.size(), n) == 0) m.push_back(&o);
				if (m.size() == 1) { use(*m[0], joined, v); continue; }
				if (m.size() > 1) { refused = true; continue; }
				bool b = false;
				for (const char *c : built_in) if (!strncmp(c, n.c_str(), n.size())) b = true;
				if (b && n.compare(0, 6, "argv-f") == 0) { open = true; r.v = OPEN; return r; }
				if (b) { r.v = HELP; return r; }
				refused = true;
				continue;
			}
			for (size_t k = 0; k < n.size(); k++) {
				const Opt *m = nullptr;
				for (auto &o : opts) if (o.s && o.s == n[k]) m = &o;
				if (m) { if (joined && n.size() > 1) open = true; use(*m, joined, v); continue; }
				if (n[k] == '?') { r.v = HELP; return r; }
				if (k == 0 && !joined && is_number(s) && got < want.size() && want[got]->kind == NUMBER) {
					r.val[want[got++]->l].push_back(s);
					break;
				}
				refused = true;
			}
			continue;
		}
		if (got < want.size()) r.val[want[got++]->l].push_back(s);
		else refused = true;
	}
	if (got < want.size()) refused = true;
	for (auto &o : opts) if (o.kind != FLAG && !o.many && r.has(o.l) && r.val[o.l].size() > 1) open = true;
	if (r.v == HELP) return r;
	r.v = refused ? REFUSED : open ? OPEN : FINE;
	return r;
}
static inline bool plain(const B &s, long *v) // a decimal number, 1 ... 10^9
{
	if (s.empty() || s.size() > 9 || s.find_first_not_of("0123456789") != B::npos || s[0] == '0') return false;
	*v = atol(s.c_str());
	return true;
}
// a TCP port: 0 accepted, 1 refused, 2 not specified
static inline int port(const B &s, uint16_t *p)
{
	if (s.empty() || s[0] == '+' || s[0] == ' ' || s[0] == '\t' || s == "0" || (s[0] == '0' && s.size() > 1)) { if (s == "0") { *p = 0; return 0; } return 2; }
	if (s.find_first_not_of("0123456789") != B::npos) return s[0] == '-' && s.size() > 6 ? 2 : 1;
	if (s.size() > 5) return 1;
	long n = atol(s.c_str());
	if (n > 65535) return 1;
	*p = n;
	return 0;
}
// Every beginning of every long option, also with a wrong letter, with its value joined, following, empty or missing, in
// front of or behind a line that is otherwise complete (or even has that option already).
template <class F> static void prefixes(const std::vector<Opt> &opts, const std::vector<std::pair<B, B>> &base, const std::map<B, B> &value, F run)
{
	std::vector<B> names = {"argv-display", "argv-file", "usage", "usage-short", "usage-long", "usage-all", "version", "bogus"};
	for (auto &o : opts) names.push_back(o.l);
	B n = names[mc::choose(names.size(), "name")], full = n;
	n.resize(1 + mc::choose(n.size(), "length"));
	switch (mc::choose(3, "altered")) {
	case 1: n += 'x'; break;
	case 2: n.back() = n.back() == 'x' ? 'y' : 'x'; break;
	}
	bool keep = mc::choose(2, "repeated");
	auto it = value.find(full);
	B v = it == value.end() ? "v" : it->second;
	std::vector<B> tok = {"--" + n}, a;
	switch (mc::choose(4, "value")) {
	case 1: tok[0] += "=" + v; break;
	case 2: tok.push_back(v); break;
	case 3: tok[0] += "="; break;
	}
	for (auto &b : base) {
		if (b.first == full && !keep) continue;
		a.push_back("--" + b.first);
		if (!b.second.empty()) a.push_back(b.second);
	}
	a.insert(mc::choose(2, "in front") ? a.begin() : a.end(), tok.begin(), tok.end());
	run(a);
}
}
