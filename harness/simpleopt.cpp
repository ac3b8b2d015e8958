// C23: the command line parser against a reference written from the documented rules.
// Every string and array lives in its own exact-size heap block (ASan).
#include "vh.h"
#include <cy_core.h>
#include <deque>
#include <utility/cyu_simple_opt.h>
using vh::Rng;
typedef std::string str;

struct Opt { int id; str text; ESOArgType type; };
struct Ev { bool more; int err; int id; bool hasText; str text; bool hasArg; str arg; };

struct Ref {
	std::deque<str> rest; std::vector<str> files; const std::vector<Opt>* opts; int flags; str clump; bool inClump; Ev e; 
	void init(const std::vector<str>& argv, const std::vector<Opt>* o, int f) { rest.clear(); files.clear(); opts = o; flags = f; inClump = false; clump.clear(); for (size_t i = (f & SO_O_USEALL) ? 0 : 1; i < argv.size(); i++) rest.push_back(argv[i]); }
	static char lower(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
	bool same(char a, char b, bool icase) const { return icase ? lower(a) == lower(b) : a == b; }
	static size_t hyphens(const str& s) { size_t n = 0; while (n < s.size() && s[n] == '-') n++; return n; }
	// 2 exact, 1 proper prefix, 0 none
	int match(const str& opt, const str& arg, int fl) const {
		int kind = opt[0] != '-' ? SO_O_ICASE_WORD : (opt.size() <= 2 && !(opt.size() == 2 && opt[1] == '-')) ? SO_O_ICASE_SHORT : SO_O_ICASE_LONG;
		bool ic = (fl & kind) != 0;
		if (hyphens(opt) != hyphens(arg)) return 0;
		str o = opt.substr(hyphens(opt)), a = arg.substr(hyphens(arg));
		if (a.size() > o.size()) return 0;
		for (size_t i = 0; i < a.size(); i++) if (!same(o[i], a[i], ic)) return 0;
		if (a.size() == o.size()) return 2;
		return a.empty() ? 0 : 1;
	}
	int lookup(const str& arg, int fl) const {
		int part = -1, n = 0;
		for (size_t i = 0; i < opts->size(); i++) { int m = match((*opts)[i].text, arg, fl); if (m == 2) return (int)i; if (m == 1) { part = (int)i; n++; } }
		if ((fl & SO_O_EXACT) || n == 0) return SO_OPT_INVALID;
		return n == 1 ? part : SO_OPT_MULTIPLE;
	}
	void set(int err, int id, const str* t, const str* a) { e.more = true; e.err = err; e.id = id; e.hasText = t != nullptr; e.text = t ? *t : ""; e.hasArg = a != nullptr; e.arg = a ? *a : ""; }
	bool nextClump() {    // true: a valid option
		str s = str("-") + clump[0]; clump.erase(0, 1);
		int i = lookup(s, flags | SO_O_EXACT);
		if (i < 0) { set(i, -1, &s, nullptr); return false; }
		const Opt& o = (*opts)[(size_t)i];
		if (o.type == SO_NONE) { set(SO_SUCCESS, o.id, &o.text, nullptr); return true; }
		if (o.type == SO_REQ_CMB && !clump.empty()) { str a = clump; clump.clear(); set(SO_SUCCESS, o.id, &o.text, &a); return true; }
		set(SO_ARG_MISSING, -1, &o.text, nullptr); return true;
	}
	bool next() {
		if (inClump && !clump.empty()) {
			bool ok = nextClump();
			while (!clump.empty() && !ok && (flags & SO_O_NOERR)) ok = nextClump();
			if (ok || !(flags & SO_O_NOERR)) return true;
		}
		inClump = false;
		while (!rest.empty()) {
			str arg = rest.front(), name = arg, val; bool hasVal = false; bool sw = !arg.empty() && arg[0] == '-';
			if (sw) { size_t p = arg.find('='); if (p != str::npos) { name = arg.substr(0, p); val = arg.substr(p + 1); hasVal = true; } }
			int i = lookup(name, flags);
			if (i < 0 && !hasVal && sw && arg.size() >= 3 && arg[1] != '-') {
				if (flags & SO_O_SHORTARG) { int j = lookup(arg.substr(0, 2), flags); if (j >= 0 && ((*opts)[(size_t)j].type == SO_REQ_CMB || (*opts)[(size_t)j].type == SO_OPT)) { i = j; hasVal = true; val = arg.substr(2); } }
				if (i < 0 && (flags & SO_O_CLUMP)) { clump = arg.substr(1); inClump = true; rest.pop_front(); return next(); }
			}
			rest.pop_front();
			if (i < 0) {
				if (sw && !(flags & SO_O_NOERR)) { set(i, -1, &name, hasVal ? &val : nullptr); return true; }
				files.push_back(arg); continue;
			}
			const Opt& o = (*opts)[(size_t)i];
			int err = SO_SUCCESS;
			if (o.type == SO_NONE && hasVal) err = SO_ARG_INVALID;
			if (o.type == SO_REQ_SEP && hasVal && (flags & SO_O_PEDANTIC)) err = SO_ARG_INVALID_TYPE;
			if (o.type == SO_REQ_CMB && !hasVal) err = SO_ARG_MISSING;
			set(err, o.id, &o.text, hasVal ? &val : nullptr);
			if (o.type == SO_REQ_SEP && !hasVal) { std::vector<str> m; if (multi(1, m)) { e.hasArg = true; e.arg = m[0]; } }
			return true;
		}
		return false;
	}
	bool multi(int n, std::vector<str>& out) {
		if (n < 0 || (size_t)n > rest.size()) { e.err = SO_ARG_MISSING; return false; }
		if (!(flags & SO_O_NOERR)) for (int i = 0; i < n; i++) if (!rest[(size_t)i].empty() && rest[(size_t)i][0] == '-') { e.err = SO_ARG_INVALID_DATA; return false; }
		for (int i = 0; i < n; i++) { out.push_back(rest.front()); rest.pop_front(); }
		return true;
	}
	void stop() { while (!rest.empty()) { files.push_back(rest.front()); rest.pop_front(); } inClump = false; clump.clear(); }
};

template <class C> C* dup(const str& s) { C* p = (C*)malloc((s.size() + 1) * sizeof(C)); for (size_t i = 0; i <= s.size(); i++) p[i] = (C)(unsigned char)s.c_str()[i]; return p; }
template <class C> str nar(const C* p) { str s; while (*p) s += (char)*p++; return s; }

static const char* NAMES[] = { "-a", "-b", "-c", "-A", "-x", "-?", "-", "--", "-ab", "-abc", "-long", "-lo", "--ab", "--abc", "--abd", "--help", "--ABC", "open", "op", "Open", "close", "c", "--man", "--mandate", "-f", "-F", "-1", "--a", "---" };
static std::vector<Opt> makeOpts(Rng& r) {
	std::vector<Opt> v; size_t n = r.below(9); 
	for (size_t i = 0; i < n; i++) { Opt o; o.id = (int)(r.chance(1, 6) ? r.below(3) : i); o.text = NAMES[r.below(sizeof NAMES / sizeof *NAMES)]; o.type = (ESOArgType)(r.chance(1, 3) ? SO_NONE : (int)r.below(5)); v.push_back(o); }
	return v;
}
static str makeArg(Rng& r, const std::vector<Opt>& o) {
	str s; static const char al[] = "abcABCxf-=1/ ?o\xc3";
	switch (r.below(7)) {
	case 0: { size_t n = r.below(7); for (size_t i = 0; i < n; i++) s += al[r.below(sizeof al - 1)]; break; }
	case 1: s = "file" + std::to_string(r.below(100)); break;
	case 2: { s = "-"; size_t n = r.range(0, 5); for (size_t i = 0; i < n; i++) s += al[r.below(8)]; break; }
	default:
		s = o.empty() || r.chance(1, 8) ? str(NAMES[r.below(sizeof NAMES / sizeof *NAMES)]) : o[r.below(o.size())].text;
		if (r.chance(1, 4)) s = s.substr(0, r.range(0, s.size()));
		if (r.chance(1, 5)) for (auto& c : s) if (r.chance(1, 2)) { if (c >= 'a' && c <= 'z') c = (char)(c - 32); else if (c >= 'A' && c <= 'Z') c = (char)(c + 32); }
		if (r.chance(1, 5)) { size_t n = r.below(4); for (size_t i = 0; i < n; i++) s += al[r.below(10)]; }
		if (r.chance(1, 4)) s += "=" + str(r.chance(1, 3) ? "" : r.chance(1, 2) ? "val" : "k=v");
	}
	return s;
}
static str show(const std::vector<str>& a) { str s; for (auto& x : a) s += " '" + x + "'"; return s.size() > 700 ? s.substr(0, 700) : s; }

template <class C> void parser_case(vh::Args& a, Rng& r, long c) {
	typedef CSimpleOptTempl<C> SO;
	SO* so = nullptr;
	Ref ref; 
	std::vector<void*> blocks;
	int rounds = (int)r.range(1, 3);      // the same parser object initialised again
	for (int round = 0; round < rounds; round++) {
		vh::tick("simpleopt");
		std::vector<Opt> tabs[2] = { makeOpts(r), makeOpts(r) };
		typename SO::SOption* ct[2];
		for (int t = 0; t < 2; t++) {
			ct[t] = (typename SO::SOption*)malloc((tabs[t].size() + 1) * sizeof(typename SO::SOption)); blocks.push_back(ct[t]);
			for (size_t i = 0; i < tabs[t].size(); i++) { C* n = dup<C>(tabs[t][i].text); blocks.push_back(n); ct[t][i].nId = tabs[t][i].id; ct[t][i].pszArg = n; ct[t][i].nArgType = tabs[t][i].type; }
			typename SO::SOption end = SO_END_OF_OPTIONS; ct[t][tabs[t].size()] = end;
		}
		static const int bits[] = { SO_O_EXACT, SO_O_NOSLASH, SO_O_SHORTARG, SO_O_CLUMP, SO_O_USEALL, SO_O_NOERR, SO_O_PEDANTIC, SO_O_ICASE_SHORT, SO_O_ICASE_LONG, SO_O_ICASE_WORD };
		int flags = 0; for (int b : bits) if (r.chance(1, 3)) flags |= b;
		size_t n = r.chance(1, 12) ? r.range(45, 130) : r.chance(1, 30) ? 0 : r.range(1, 12);
		std::vector<str> args; for (size_t i = 0; i < n; i++) args.push_back(makeArg(r, tabs[0]));
		C** argv = (C**)malloc(n * sizeof(C*) + (n == 0)); blocks.push_back(argv);
		std::multiset<C*> ptrs; for (size_t i = 0; i < n; i++) { argv[i] = dup<C>(args[i]); blocks.push_back(argv[i]); ptrs.insert(argv[i]); }
		str tabtext; for (auto& o : tabs[0]) tabtext += " " + std::to_string(o.id) + ":" + o.text + "/" + std::to_string(o.type);
		vh::setcase("opt seed=%llu case=%ld round=%d flags=0x%x table:%.300s args:%s", (unsigned long long)a.seed, c, round, flags, tabtext.c_str(), show(args).c_str());
		if (!so) {
			if (r.chance(1, 2)) so = new SO((int)n, argv, ct[0], flags); else { so = new SO(); VH_CHECK(so->Init((int)n, argv, ct[0], flags), "opt-init", "Init refused"); }
		} else VH_CHECK(so->Init((int)n, argv, ct[0], flags), "opt-init", "Init refused");
		ref.init(args, &tabs[0], flags);
		size_t steps = 0; bool stopped = false;
		for (;;) {
			bool g = so->Next(), w = ref.next();
			if (g != w) { vh::viol("opt-next", "Next() #%zu is %d, should be %d", steps, g, w); break; }
			vh::stat("evaluations");
			if (!g) break;
			if (++steps > 1000) { vh::viol("opt-endless", "more than 1000 options from %zu arguments", n); break; }
			Ev& e = ref.e;
			VH_CHECK((int)so->LastError() == e.err, "opt-error", "step %zu: error %d, should be %d", steps, (int)so->LastError(), e.err);
			VH_CHECK(so->OptionId() == e.id, "opt-id", "step %zu: id %d, should be %d", steps, so->OptionId(), e.id);
			bool ht = so->OptionText() != nullptr; str gt = ht ? nar(so->OptionText()) : "";
			VH_CHECK(ht == e.hasText && gt == e.text, "opt-text", "step %zu: text '%s', should be '%s'", steps, gt.c_str(), e.text.c_str());
			bool ha = so->OptionArg() != nullptr; str ga = ha ? nar(so->OptionArg()) : "";
			VH_CHECK(ha == e.hasArg && ga == e.arg, "opt-arg", "step %zu (%s): argument %d '%s', should be %d '%s'", steps, gt.c_str(), ha, ga.c_str(), e.hasArg, e.arg.c_str());
			static const char* en[] = { "ok", "invalid", "multiple", "arg_invalid", "arg_invalid_type", "arg_missing", "arg_invalid_data" };
			vh::stat((str("err_") + en[-e.err]).c_str());
			vh::distinct(vh::hash64(e.text.data(), e.text.size(), vh::mix((uint64_t)flags, (uint64_t)(e.err + 10 + e.hasArg * 50)) + vh::hash64(e.arg.data(), e.arg.size())));
			bool isMulti = false; if (e.err == SO_SUCCESS) for (auto& o : *ref.opts) if (o.id == e.id && o.type == SO_MULTI && o.text == e.text) isMulti = true;
			if (isMulti) for (int k = 0; k < 2; k++) {
				int cnt = (int)r.below(4); if (r.chance(1, 12)) cnt = r.chance(1, 2) ? INT32_MAX - (int)r.below(3) : -1 - (int)r.below(4);
				std::vector<str> want; bool wok = ref.multi(cnt, want);
				C** m = so->MultiArg(cnt);
				VH_CHECK((m != nullptr) == wok && (int)so->LastError() == ref.e.err, "opt-multi", "MultiArg(%d) gives %d error %d, should be %d error %d", cnt, m != nullptr, (int)so->LastError(), wok, ref.e.err);
				if (m && wok) for (size_t i = 0; i < want.size(); i++) VH_CHECK(nar(m[i]) == want[i], "opt-multi-arg", "MultiArg(%d)[%zu] is '%s', should be '%s'", cnt, i, nar(m[i]).c_str(), want[i].c_str());
				vh::stat("multi"); if (!wok) break;
			}
			if (r.chance(1, 40)) { int t = (int)r.below(2); so->SetOptions(ct[t]); ref.opts = &tabs[t]; vh::stat("table_changed"); }
			if (r.chance(1, 40)) { int f = 0; for (int b : bits) if (r.chance(1, 3)) f |= b; so->SetFlags(f); ref.flags = f; vh::stat("flags_changed"); }
			if (r.chance(1, 60)) { so->Stop(); ref.stop(); stopped = true; vh::stat("stopped"); }
		}
		VH_CHECK(!so->Next(), "opt-next-after-end", "Next() is true after the end");
		VH_CHECK(so->FileCount() == (int)ref.files.size(), "opt-files", "%d files, should be %zu (stopped=%d)", so->FileCount(), ref.files.size(), stopped);
		if (so->FileCount() == (int)ref.files.size()) for (size_t i = 0; i < ref.files.size(); i++) {
			str f = nar(so->File((int)i));
			VH_CHECK(f == ref.files[i] && so->Files()[i] == so->File((int)i), "opt-file", "file %zu is '%s', should be '%s'", i, f.c_str(), ref.files[i].c_str());
		}
		std::multiset<C*> now; for (size_t i = 0; i < n; i++) now.insert(argv[i]);
		VH_CHECK(now == ptrs, "opt-argv", "the argument array no longer holds the given strings");
		vh::stat("lists"); vh::stat("files", (long long)ref.files.size()); if (n > 50) vh::stat("long_lists");
		if (c < 3) vh::sample("flags=0x%x table:%s args:%s -> %zu options/errors, %zu files", flags, tabtext.c_str(), show(args).c_str(), steps, ref.files.size());
	}
	delete so;
	for (void* b : blocks) free(b);
}

int main(int argc, char** argv) {
	vh::Args a = vh::init(argc, argv); vh::watchdog(60);
	Rng r(a.seed);
	for (long c = 0; c < a.cases; c++) { if (c % 4 == 3) parser_case<wchar_t>(a, r, c); else parser_case<char>(a, r, c); }
	return vh::finish();
}
