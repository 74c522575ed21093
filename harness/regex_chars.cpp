// Characters denoted by the atoms of a regular expression: for each atom the exact set of one-unit and two-unit (surrogate
// pair) strings the compiled automaton accepts is computed from its ranges and compared with the documented set, over the
// whole code space (no sampling of characters).
#include "automata.h"
#include "unicat.h"
#include "TameParse/Util/unicode.h"
using namespace vp; using namespace std;

typedef vector<pair<int,int>> ranges;       // sorted, disjoint, half open

static ranges norm(ranges r) {
    ranges o;
    sort(r.begin(), r.end());
    for (auto& x : r) {
        if (x.first >= x.second) continue;
        if (!o.empty() && x.first <= o.back().second) { if (x.second > o.back().second) o.back().second = x.second; }
        else o.push_back(x);
    }
    return o;
}
static ranges invert(const ranges& r) {
    ranges o; int at = 0;
    for (auto& x : r) { if (x.first > at) o.push_back(make_pair(at, x.first)); at = x.second; }
    if (at < 0x7fffffff) o.push_back(make_pair(at, 0x7fffffff));
    return o;
}
static ranges clip(const ranges& r, int lo, int hi) {
    ranges o;
    for (auto& x : r) { int a = max(x.first, lo), b = min(x.second, hi); if (a < b) o.push_back(make_pair(a, b)); }
    return o;
}
static string show(const ranges& r) {
    ostringstream o; o << hex; int n = 0;
    for (auto& x : r) { if (++n > 12) { o << " ..."; break; } o << " " << x.first << "-" << x.second - 1; }
    return o.str();
}

static bool accepting(const nfa_view& v, int s) { nfa_view::states t = v.start(s); return v.accepts(t).count(1) != 0; }

// One-unit strings accepted
static ranges one_unit(const nfa_view& v) {
    ranges r;
    for (int s : v.start()) for (auto& e : v.edges[s]) if (accepting(v, e.target)) for (auto& x : e.ranges) r.push_back(x);
    return norm(r);
}
// Two-unit strings: for each first unit in [lo,hi) the set of second units
static void two_units(const nfa_view& v, vector<pair<pair<int,int>, ranges>>& rects) {
    for (int s : v.start()) for (auto& e : v.edges[s]) {
        ranges second;
        for (int t : v.start(e.target)) for (auto& f : v.edges[t]) if (accepting(v, f.target)) for (auto& x : f.ranges) second.push_back(x);
        second = norm(second);
        if (!second.empty()) for (auto& x : e.ranges) if (x.first < x.second) rects.push_back(make_pair(x, second));
    }
}
// Three-unit strings: there must be none
static bool three_units(const nfa_view& v) {
    set<int> level; for (int s : v.start()) level.insert(s);
    for (int i = 0; i < 3; ++i) {
        set<int> next;
        for (int s : level) for (auto& e : v.edges[s]) { bool any = false; for (auto& x : e.ranges) if (x.first < x.second) any = true; if (any) for (int t : v.start(e.target)) next.insert(t); }
        level = next;
    }
    for (int s : level) if (v.accept[s].count(1)) return true;
    return false;
}

static void check_set(const dfa::ndfa& n, const ranges& want, bool surrogates, const string& what) {
    nfa_view v(n);
    ++res().traces;
    res().states += v.edges.size();
    for (auto& e : v.edges) res().transitions += e.size();
    ranges got1 = one_unit(v);
    ranges want1 = surrogates ? clip(want, 0, 0x10000) : want;
    if (got1 != want1) { violation(what, what + ": accepts characters" + show(got1) + " but denotes" + show(want1)); return; }
    if (v.accepts(v.start()).count(1)) violation(what, what + ": accepts the empty string");
    vector<pair<pair<int,int>, ranges>> rects;
    two_units(v, rects);
    ranges want2 = surrogates ? clip(want, 0x10000, 0x110000) : ranges();
    if (want2.empty()) { if (!rects.empty()) violation(what, what + ": accepts two-unit strings but denotes none"); }
    else {
        for (auto& r : rects) if (r.first.first < 0xd800 || r.first.second > 0xdc00) { violation(what, what + ": accepts pairs not starting with a high surrogate"); return; }
        size_t wi = 0;
        for (int high = 0xd800; high < 0xdc00; ++high) {
            ranges lows;
            for (auto& r : rects) if (high >= r.first.first && high < r.first.second) for (auto& x : r.second) lows.push_back(x);
            lows = norm(lows);
            int base = 0x10000 + ((high - 0xd800) << 10);
            ranges wl;
            while (wi < want2.size() && want2[wi].second <= base) ++wi;
            for (size_t k = wi; k < want2.size() && want2[k].first < base + 0x400; ++k) {
                int a = max(want2[k].first, base), b = min(want2[k].second, base + 0x400);
                wl.push_back(make_pair(a - base + 0xdc00, b - base + 0xdc00));
            }
            if (lows != wl) { ostringstream o; o << what << ": after high surrogate " << hex << high << " accepts" << show(lows) << " but the denoted code points need" << show(wl); violation(what, o.str()); return; }
        }
    }
    if (three_units(v)) violation(what, what + ": accepts strings of three units");
}

static string text(const wstring& w) { return narrow(w); }

static void check_atom(const char* section, long long idx, const wstring& regex, ranges want, bool ci, bool sur, bool asDfa = true) {
    if (!begin_case(section, idx)) return;
    string what = "atom=/" + text(regex) + "/" + (ci ? " case-insensitive" : "") + (sur ? "" : " no-surrogates");
    describe(what);
    dfa::ndfa_regex n;
    n.set_case_insensitive(ci);
    n.set_use_surrogates(sur);
    n.add_regex(0, regex, dfa::accept_action(1));
    check_set(n, norm(want), sur, what);
    if (asDfa) {
        unique_ptr<dfa::ndfa> u(n.to_ndfa_with_unique_symbols());
        unique_ptr<dfa::ndfa> d(u->to_dfa());
        check_set(*d, norm(want), sur, what + " (as DFA)");
    }
    ++res().nontrivial;
    if (idx < 2) sample(what + " denotes" + show(norm(want)));
}

// ---- Case mapping: independent reference for the scripts with regular case pairs
static int ref_lower(int c) {
    if (c >= 'A' && c <= 'Z') return c + 32;
    if (c >= 0xc0 && c <= 0xde && c != 0xd7) return c + 32;
    if (c >= 0x391 && c <= 0x3a9 && c != 0x3a2) return c + 32;
    if (c >= 0x410 && c <= 0x42f) return c + 32;
    if (c >= 0x400 && c <= 0x40f) return c + 80;
    return c;
}
static int ref_upper(int c) {
    if (c >= 'a' && c <= 'z') return c - 32;
    if (c >= 0xe0 && c <= 0xfe && c != 0xf7) return c - 32;
    if (c >= 0x3b1 && c <= 0x3c9 && c != 0x3c2) return c - 32;
    if (c >= 0x430 && c <= 0x44f) return c - 32;
    if (c >= 0x450 && c <= 0x45f) return c - 80;
    return c;
}
static bool regular(int c) { return c < 0x80 || (c >= 0xc0 && c <= 0xfe && c != 0xdf) || (c >= 0x391 && c <= 0x3a9) || (c >= 0x3b1 && c <= 0x3c1) || (c >= 0x3c3 && c <= 0x3c9) || (c >= 0x400 && c <= 0x45f); }

static ranges of(const dfa::symbol_set& s) { ranges r; for (dfa::symbol_set::iterator i = s.begin(); i != s.end(); ++i) r.push_back(make_pair(i->lower(), i->upper())); return norm(r); }

static void case_map() {
    util::unicode u;
    const int top = cfg().thorough ? 0x11000 : 0x600;
    // Single characters
    vector<int> up(0x110000), lo(0x110000);
    for (int c = 0; c < 0x110000; ++c) {
        ranges a = of(u.to_upper(dfa::symbol_set(dfa::range<int>(c, c + 1)))), b = of(u.to_lower(dfa::symbol_set(dfa::range<int>(c, c + 1))));
        up[c] = a.size() == 1 && a[0].second == a[0].first + 1 ? a[0].first : -1;
        lo[c] = b.size() == 1 && b[0].second == b[0].first + 1 ? b[0].first : -1;
    }
    for (int c = 0; c < 0x110000; ++c) {
        if ((c & 0xfff) == 0) arm();
        if ((c & 0xff) != 0) continue;
        if (!begin_case("case-map-single", c >> 8)) continue;
        for (int d = c; d < c + 0x100; ++d) {
            ++res().evaluations;
            ostringstream o; o << "character U+" << hex << d;
            if (up[d] < 0 || lo[d] < 0) { violation(o.str(), "a character doesn't map to a single character"); continue; }
            if (regular(d) && (up[d] != ref_upper(d) || lo[d] != ref_lower(d))) { o << " upper " << up[d] << " lower " << lo[d] << " expected " << ref_upper(d) << " " << ref_lower(d); violation(o.str(), o.str()); }
            // Mapping twice is mapping once
            if (up[up[d]] != up[d] || lo[lo[d]] != lo[d]) violation(o.str() + " idempotent", "case mapping isn't idempotent");
        }
    }
    // Ranges are mapped character by character: every range in a window around each starting point
    int width = cfg().thorough ? 80 : 48;
    for (int a = 0; a < top; ++a) {
        if (!begin_case("case-map-range", a)) continue;
        ranges wu, wl;
        for (int b = a + 1; b <= a + width; ++b) {
            wu.push_back(make_pair(up[b-1], up[b-1] + 1)); wl.push_back(make_pair(lo[b-1], lo[b-1] + 1));
            ++res().evaluations;
            dfa::symbol_set s(dfa::range<int>(a, b));
            ostringstream o; o << "range U+" << hex << a << "..U+" << b - 1;
            ranges gu = of(u.to_upper(s)), gl = of(u.to_lower(s));
            if (gu != norm(wu)) { violation(o.str() + " to_upper", o.str() + " maps to" + show(gu) + ", its characters map to" + show(norm(wu))); break; }
            if (gl != norm(wl)) { violation(o.str() + " to_lower", o.str() + " maps to" + show(gl) + ", its characters map to" + show(norm(wl))); break; }
        }
    }
}

static void literal_chars() {
    static const wstring special = L"()|*+?.[{\\";
    for (int c = 1; c < 0x10000; ++c) {
        if (special.find((wchar_t)c) != wstring::npos) continue;
        check_atom("literal-char", c, wstring(1, (wchar_t)c), {{c, c + 1}}, false, true, c < 0x200);
    }
    for (int c = 0x10000; c < 0x110000; c += cfg().thorough ? 1 : 61) {
        check_atom("literal-supplementary", c, wstring(1, (wchar_t)c), {{c, c + 1}}, false, true, false);
        if (c % 5 == 0) check_atom("literal-supplementary-32bit", c, wstring(1, (wchar_t)c), {{c, c + 1}}, false, false, false);
    }
}

static void escapes() {
    map<int,int> esc = { {'a', 7}, {'e', 27}, {'f', 12}, {'n', 10}, {'r', 13}, {'t', 9} };
    long long i = 0;
    // \c for every character that isn't the start of a longer escape
    for (int c = 1; c < 0x10000; ++c) {
        ++i;
        if (c == 'u' || c == 'x' || c == 'o' || (c >= '0' && c <= '9')) continue;
        int d = esc.count(c) ? esc[c] : c;
        check_atom("escape-char", i, wstring(L"\\") + (wchar_t)c, {{d, d + 1}}, false, true, c < 0x100);
        if (c < 0x100) {
            check_atom("escape-in-set", i, wstring(L"[\\") + (wchar_t)c + L"]", {{d, d + 1}}, false, true);
            check_atom("escape-in-negated-set", i, wstring(L"[^\\") + (wchar_t)c + L"]", invert({{d, d + 1}}), false, true);
            if (d < 0x200) check_atom("escape-to-range", i, wstring(L"[\\") + (wchar_t)c + L"-\\u0200]", {{d, 0x201}}, false, true);
        }
    }
    // \uXXXX for every value, in both digit cases; \xXX; \OOO
    static const wchar_t* lc = L"0123456789abcdef"; static const wchar_t* uc = L"0123456789ABCDEF";
    for (int c = 0; c < 0x10000; ++c) {
        for (int k = 0; k < 2; ++k) {
            const wchar_t* dg = k ? uc : lc;
            if (k && c % 7 && !cfg().thorough) continue;
            wstring r = L"\\u"; r += dg[c >> 12]; r += dg[(c >> 8) & 15]; r += dg[(c >> 4) & 15]; r += dg[c & 15];
            check_atom(k ? "escape-u-upper" : "escape-u-lower", c, r, {{c, c + 1}}, false, true, false);
        }
    }
    for (int c = 0; c < 0x100; ++c) {
        for (int k = 0; k < 2; ++k) {
            const wchar_t* dg = k ? uc : lc;
            wstring r = L"\\x"; r += dg[c >> 4]; r += dg[c & 15];
            check_atom(k ? "escape-x-upper" : "escape-x-lower", c, r, {{c, c + 1}}, false, true);
            check_atom(k ? "escape-x-set-upper" : "escape-x-set-lower", c, L"[" + r + L"]", {{c, c + 1}}, false, true);
        }
    }
    for (int c = 0; c < 0400; ++c) {
        wstring r = L"\\"; r += (wchar_t)(L'0' + (c >> 6)); r += (wchar_t)(L'0' + ((c >> 3) & 7)); r += (wchar_t)(L'0' + (c & 7));
        check_atom("escape-octal", c, r, {{c, c + 1}}, false, true);
    }
    // \\oOOOOOO
    for (int c = 0; c < 01000000; c += (c < 02000 || cfg().thorough) ? 1 : c < 0x10000 ? 13 : 131) {
        wstring r = L"\\o"; for (int k = 15; k >= 0; k -= 3) r += (wchar_t)(L'0' + ((c >> k) & 7));
        check_atom("escape-o", c, r, {{c, c + 1}}, false, true, c < 02000);
        if (c < 02000 || c % 11 == 0) check_atom("escape-o-range", c, L"[!" + r + L"]", c == '!' ? ranges{{'!', '!' + 1}} : ranges{{'!', '!' + 1}, {c, c + 1}}, false, true, false);
    }
    // An escape takes no more digits than it should, and what follows is a separate character
    for (int c = 0; c < 16; ++c) {
        for (int f = 0; f < 16; ++f) {
            wstring d(1, lc[c]), e(1, lc[f]);
            wstring od(1, lc[c & 7]), oe(1, lc[f & 7]);
            struct { wstring re; vector<int> word; } seqs[] = {
                // All of the digits an escape can have, and then one more
                { L"\\1" + od + L"1" + e, { 0101 + 8 * (c & 7), (int)lc[f] } },
                { L"\\o00101" + od + oe, { 01010 + (c & 7), (int)lc[f & 7] } },
                { L"\\o17210" + od + e, { 0172100 + (c & 7), (int)lc[f] } },
                // Fewer digits than an escape can have, and then something that is not a digit of it
                { L"\\x" + d + L"g" + e, { c, 'g', (int)lc[f] } },
                { L"\\u" + d + L"g" + e, { c, 'g', (int)lc[f] } },
                { L"\\u" + d + e + L"-", { c * 16 + f, '-' } },
                { L"\\u" + d + e + L"3G", { (c * 16 + f) * 16 + 3, 'G' } },
                { L"\\" + od + L"8" + e, { c & 7, '8', (int)lc[f] } },
                { L"\\" + od + oe + L"9", { (c & 7) * 8 + (f & 7), '9' } },
                { L"\\o" + od + L"8" + e, { c & 7, '8', (int)lc[f] } },
                { L"\\o1" + od + oe + L"2z", { ((8 + (c & 7)) * 8 + (f & 7)) * 8 + 2, 'z' } },
                { L"\\x4" + d + e, { 0x40 + c, (int)lc[f] } },
                { L"\\u004" + d + e, { 0x40 + c, (int)lc[f] } },
                { L"\\x4" + d + L"g", { 0x40 + c, 'g' } },
            };
            for (int s = 0; s < (int)(sizeof(seqs) / sizeof(seqs[0])); ++s) {
                if (!begin_case("escape-then-char", (c * 16 + f) * 16 + s)) continue;
                describe(text(seqs[s].re));
                dfa::ndfa_regex n; n.add_regex(0, seqs[s].re, dfa::accept_action(1));
                nfa_view v(n);
                nfa_view::states st = v.start();
                ++res().traces;
                for (int u : seqs[s].word) st = v.step(st, u);
                if (!v.accepts(st).count(1)) violation("regex=/" + text(seqs[s].re) + "/", "escape followed by a character isn't matched as two characters");
            }
        }
    }
}

static void sets() {
    struct it { wstring t; ranges r; };
    vector<it> items = {
        { L"a", {{'a','b'}} }, { L"c", {{'c','d'}} }, { L"b-d", {{'b','e'}} }, { L"A-Z", {{'A','['}} }, { L"\\n", {{10,11}} }, { L".", {{'.','/'}} },
        { L"*", {{'*','+'}} }, { L"(", {{'(',')'}} }, { L"|", {{'|','}'}} }, { L"\\]", {{']','^'}} }, { L"\\\\", {{'\\',']'}} }, { L"\\u0410-\\u042f", {{0x410,0x430}} },
        { L"\\x41-\\x43", {{0x41,0x44}} }, { L"[", {{'[','\\'}} }, { L"{", {{'{','|'}} }, { L"m-m", {{'m','n'}} }, { L"\\-", {{'-','.'}} }, { L"e", {{'e','f'}} },
        { L"\\u0000-\\uffff", {{0,0x10000}} }, { wstring(1, (wchar_t)0x1f600), {{0x1f600,0x1f601}} }, { wstring(1, (wchar_t)0x10000) + L"-" + wstring(1, (wchar_t)0x10ffff), {{0x10000,0x110000}} },
        { wstring(1, (wchar_t)0x103fe) + L"-" + wstring(1, (wchar_t)0x10c01), {{0x103fe,0x10c02}} },
        { wstring(1, (wchar_t)0xfffe) + L"-" + wstring(1, (wchar_t)0x10001), {{0xfffe,0x10002}} },
    };
    long long idx = 0;
    int depth = cfg().thorough ? 3 : 2;
    function<void(int, wstring, ranges)> rec = [&](int d, wstring t, ranges r) {
        if (!t.empty()) {
            ++idx;
            check_atom("set", idx, L"[" + t + L"]", r, false, true);
            check_atom("negated-set", idx, L"[^" + t + L"]", invert(norm(r)), false, true);
            check_atom("set-32bit", idx, L"[" + t + L"]", r, false, false);
            check_atom("negated-set-32bit", idx, L"[^" + t + L"]", invert(norm(r)), false, false);
        }
        if (d == 0) return;
        for (auto& i : items) { ranges n = r; n.insert(n.end(), i.r.begin(), i.r.end()); rec(d - 1, t + i.t, n); }
    };
    rec(depth, L"", ranges());
    check_atom("any", 0, L".", {{0, 0x7fffffff}}, false, true);
    check_atom("any", 1, L".", {{0, 0x7fffffff}}, false, false);
    check_atom("set", 1000000, L"[-a]", {{'-','.'},{'a','b'}}, false, true);
    check_atom("set", 1000001, L"[a^]", {{'^','_'},{'a','b'}}, false, true);
    // Ranges in the supplementary planes: every combination of boundary code points
    vector<int> pts;
    for (int h : { 0, 1, 2, 3, 0x3f, 0x40, 0x41, 0x3fe, 0x3ff }) for (int l : { 0, 1, 0x1ff, 0x3fe, 0x3ff }) pts.push_back(0x10000 + (h << 10) + l);
    for (int p : { 0, 0x61, 0xd7ff, 0xfffe, 0xffff }) pts.push_back(p);
    sort(pts.begin(), pts.end());
    idx = 0;
    for (int a : pts) for (int b : pts) if (a <= b) {
        ++idx;
        if (a == 0 || b == 0) continue;
        wstring t = L"["; t += (wchar_t)a; t += L"-"; t += (wchar_t)b; t += L"]";
        check_atom("supplementary-range", idx, t, {{a, b + 1}}, false, true);
    }
}

static void classes() {
    struct cls { const char* name; const char* cat; };
    static const cls c[] = {
        {"letter","L"},{"letter-uppercase","Lu"},{"letter-lowercase","Ll"},{"letter-titlecase","Lt"},{"letter-modifier","Lm"},{"letter-other","Lo"},
        {"mark","M"},{"mark-nonspacing","Mn"},{"mark-spacing","Mc"},{"mark-enclosing","Me"},{"number","N"},{"number-decimal","Nd"},{"number-letter","Nl"},{"number-other","No"},
        {"punctuation","P"},{"punctuation-connector","Pc"},{"punctuation-dash","Pd"},{"punctuation-open","Ps"},{"punctuation-close","Pe"},{"punctuation-initial","Pi"},{"punctuation-final","Pf"},{"punctuation-other","Po"},
        {"symbol","S"},{"symbol-math","Sm"},{"symbol-currency","Sc"},{"symbol-modifier","Sk"},{"symbol-other","So"},
        {"separator","Z"},{"separator-space","Zs"},{"separator-line","Zl"},{"separator-paragraph","Zp"},{"control","C"},{"control-control","Cc"},{"control-format","Cf"},{"control-surrogate","Cs"},{"control-private","Co"} };
    long long idx = 0;
    util::unicode u;
    for (auto& x : c) for (const char* pre : { "unicode-", "uni-", "u-" }) {
        ranges want;
        for (util::unicode::iterator b = u.begin(); b != u.end(); ++b) {
            if (b->type[0] != x.cat[0] || (x.cat[1] && b->type[1] != x.cat[1])) continue;
            for (const util::unicode::range* r = b->ranges; r->lower >= 0; ++r) want.push_back(make_pair(r->lower, r->upper));
        }
        string t = string("{") + pre + x.name + "}";
        check_atom("unicode-class", idx++, wstring(t.begin(), t.end()), want, false, true);
        dfa::ndfa_regex n;
        if (!n.check_regex(wstring(t.begin(), t.end())).empty()) violation("unicode-class " + t, "a documented class is reported as an error");
        if (want.empty()) violation("unicode-class " + t, "empty class");
    }
    // The tables themselves: every character whose category has never changed
    idx = 0;
    for (auto& r : unicat::runs) {
        if (!begin_case("category-table", idx++)) continue;
        for (int ch = r.lower; ch < r.upper; ++ch) {
            std::string got; int n = 0;
            for (util::unicode::iterator b = u.begin(); b != u.end(); ++b) for (const util::unicode::range* q = b->ranges; q->lower >= 0; ++q) if (ch >= q->lower && ch < q->upper) { got = b->type; ++n; }
            ++res().evaluations;
            if (n != 1 || got != r.category) { violation("category-table character " + to_string(ch) + " is " + r.category, "in the table: " + (n == 0 ? string("nothing") : got)); break; }
        }
        res().transitions += r.upper - r.lower;
    }
    idx = 0;
    for (auto& r : unicat::cases) {
        if (!begin_case("case-table", idx++)) continue;
        for (int ch = r.lower; ch < r.upper; ++ch) {
            dfa::symbol_set one(dfa::range<int>(ch, ch + 1)), to = r.kind == 'U' ? u.to_upper(one) : u.to_lower(one);
            ++res().evaluations;
            if (to != dfa::symbol_set(dfa::range<int>(ch + r.offset, ch + r.offset + 1))) { violation("case-table character " + to_string(ch) + (r.kind == 'U' ? " to upper case" : " to lower case"), ""); break; }
        }
        res().transitions += r.upper - r.lower;
    }
    // The classes of ASCII characters
    static const char* ascii[128] = { 0 };
    for (int ch = 0; ch < 128; ++ch) {
        if (!begin_case("ascii-category", ch)) continue;
        string want;
        if (ch < 32 || ch == 127) want = "Cc"; else if (ch == ' ') want = "Zs"; else if (isdigit(ch)) want = "Nd"; else if (isupper(ch)) want = "Lu"; else if (islower(ch)) want = "Ll";
        else if (strchr("!\"#%&'*,./:;?@\\", ch)) want = "Po"; else if (ch == '-') want = "Pd"; else if (ch == '_') want = "Pc"; else if (strchr("([{", ch)) want = "Ps"; else if (strchr(")]}", ch)) want = "Pe";
        else if (ch == '$') want = "Sc"; else if (strchr("+<=>|~", ch)) want = "Sm"; else if (strchr("^`", ch)) want = "Sk";
        set<string> got;
        for (util::unicode::iterator b = u.begin(); b != u.end(); ++b) for (const util::unicode::range* r = b->ranges; r->lower >= 0; ++r) if (ch >= r->lower && ch < r->upper) got.insert(b->type);
        ++res().evaluations;
        if (got.size() != 1 || *got.begin() != want) violation(string("ascii category of ") + to_string(ch), "is " + (got.empty() ? "none" : *got.begin()) + ", should be " + want);
    }
    (void) ascii;
}

static void insensitive() {
    // Literals, ranges and negated sets; the denoted set is closed under the case mapping of its members
    auto fold = [](const ranges& r) { ranges o = r; for (auto& x : r) for (int c = x.first; c < x.second && c < 0x600; ++c) { o.push_back({ref_lower(c), ref_lower(c)+1}); o.push_back({ref_upper(c), ref_upper(c)+1}); } return norm(o); };
    long long idx = 0;
    static const wstring special = L"()|*+?.[{\\";
    for (int c = 1; c < 0x460; ++c) { ++idx; if (!regular(c) || special.find((wchar_t)c) != wstring::npos) continue; check_atom("ci-literal", idx, wstring(1, (wchar_t)c), fold({{c,c+1}}), true, true, false); }
    auto esc = [](int c) { wchar_t b[16]; swprintf(b, 16, L"\\u%04x", c); return wstring(b); };
    idx = 0;
    // Every range within ASCII (and within Cyrillic)
    for (int a = 1; a < 128; ++a) for (int b = a; b < 128; ++b) { ++idx; check_atom("ci-ascii-range", idx, L"[" + esc(a) + L"-" + esc(b) + L"]", fold({{a,b+1}}), true, true, false); }
    for (int a = 0x400; a < 0x460; ++a) for (int b = a; b < 0x460; ++b) { ++idx; check_atom("ci-cyrillic-range", idx, L"[" + esc(a) + L"-" + esc(b) + L"]", fold({{a,b+1}}), true, true, false); }
    // Multi-character literals via add_literal
    for (int a = 0; a < 26; ++a) for (int b = 0; b < 26; ++b) {
        if (!begin_case("ci-word", a * 26 + b)) continue;
        string lit; lit += (char)('a' + a); lit += (char)('A' + b); lit += '1';
        for (int mode = 0; mode < 2; ++mode) {
            dfa::ndfa_regex n; n.set_case_insensitive(mode == 1);
            n.add_literal(0, lit, dfa::accept_action(1));
            nfa_view v(n);
            for (int bits = 0; bits < 4; ++bits) {
                string w; w += (char)((bits & 1 ? 'A' : 'a') + a); w += (char)((bits & 2 ? 'A' : 'a') + b); w += '1';
                nfa_view::states s = v.start(); for (char ch : w) s = v.step(s, ch);
                bool got = v.accepts(s).count(1), want = mode == 1 || w == lit;
                ++res().evaluations;
                if (got != want) violation("literal=" + lit + " input=" + w, mode ? "case-insensitive literal" : "case-sensitive literal");
            }
        }
        ++res().traces;
    }
}

// Malformed expressions: an error is reported exactly when a bracket stays open or {name} names nothing
static bool ref_malformed(const string& r) {
    size_t i = 0; int depth = 0;
    while (i < r.size()) {
        char c = r[i];
        if (c == '\\') { i += 2; continue; }
        if (c == '(') ++depth;
        else if (c == ')') { if (depth > 0) --depth; }
        else if (c == '[') { ++i; while (i < r.size() && r[i] != ']') i += r[i] == '\\' ? 2 : 1; if (i >= r.size()) return true; }
        else if (c == '{') { string name; ++i; while (i < r.size() && r[i] != '}') name += r[i++]; if (i >= r.size()) return true; if (name != "a" && name != "b") return true; }
        ++i;
    }
    return depth > 0;
}
static void malformed() {
    static const char sigma[] = { '(', ')', '[', ']', '{', '}', '\\', 'a' };
    int len = cfg().thorough ? 7 : 6;
    long long idx = 0;
    string r;
    dfa::ndfa_regex n;
    n.define_expression(string("a"), string("x"));
    n.define_expression_literal(string("b"), string("y"));
    function<void(int)> rec = [&](int left) {
        if (!r.empty()) {
            long long i = idx++;
            if (begin_case("malformed", i, r)) {
                ++res().evaluations;
                bool got = !n.check_regex(wstring(r.begin(), r.end())).empty(), want = ref_malformed(r);
                if (got != want) violation("regex=/" + r + "/", want ? "a malformed expression isn't reported" : "a well-formed expression is reported as an error");
            }
        }
        if (!left) return;
        for (char c : sigma) { r += c; rec(left - 1); r.erase(r.size() - 1); }
    };
    rec(len);
    for (const char* s : { "{b}", "(a{b}c)", "({b}|a)*" }) { if (begin_case("malformed-literal-reference", idx++, s) && !n.check_regex(wstring(s, s + strlen(s))).empty()) violation(string("regex=/") + s + "/", "a reference to a literal symbol is reported as an error"); }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, []() {
        string part = cfg().extra.empty() ? "all" : cfg().extra[0];
        bool all = part == "all";
        if (all || part == "chars") { literal_chars(); escapes(); sets(); }
        if (all || part == "classes") { classes(); }
        if (all || part == "case") { insensitive(); case_map(); }
        if (all || part == "malformed") malformed();
    });
}
