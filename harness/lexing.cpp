// C04 tokenisation, C07 input decoding, C08 positions
#include "automata.h"
#include "TameParse/Dfa/lexer.h"
#include "TameParse/Dfa/character_lexer.h"
#include "TameParse/Dfa/position.h"
#include "TameParse/Util/utf8reader.h"
#include "TameParse/Util/stringreader.h"
using namespace vp;
using namespace dfa;

struct tok { int sym; std::vector<int> text; int off, line, col, eoff, eline, ecol; };
static bool operator==(const tok& a, const tok& b) {
    return a.sym == b.sym && a.text == b.text && a.off == b.off && a.line == b.line && a.col == b.col && a.eoff == b.eoff && a.eline == b.eline && a.ecol == b.ecol;
}
static std::string show(const std::vector<tok>& t) {
    std::ostringstream o;
    for (auto& x : t) { o << x.sym << ":\""; for (int c : x.text) { if (c >= 32 && c < 127) o << (char)c; else o << "\\u{" << std::hex << c << std::dec << "}"; } o << "\"@" << x.off << "/" << x.line << ":" << x.col << " "; }
    return o.str();
}
static std::string show(const std::vector<int>& s) { std::ostringstream o; for (int c : s) { if (c >= 32 && c < 127) o << (char)c; else o << "\\u{" << std::hex << c << std::dec << "}"; } return o.str(); }

// ---- Reference positions
struct refpos { int off = 0, line = 0, col = 0; bool cr = false;
    void step(int c) {
        ++off;
        if (c == '\n') { if (!cr) { ++line; col = 0; } cr = false; }
        else if (c == '\r') { ++line; col = 0; cr = true; }
        else if (c == 0x0b || c == 0x0c || c == 0x85 || c == 0x2028 || c == 0x2029) { ++line; col = 0; cr = false; }
        else { ++col; cr = false; }
    }
};

static std::vector<tok> read_all(lexeme_stream* s, size_t limit) {
    std::vector<tok> r;
    for (;;) {
        lexeme* l = NULL;
        (*s) >> l;
        if (!l) break;
        tok t; t.sym = l->matched(); for (int c : l->content()) t.text.push_back(c);
        t.off = l->pos().offset(); t.line = l->pos().line(); t.col = l->pos().column();
        position e = l->final_pos(); t.eoff = e.offset(); t.eline = e.line(); t.ecol = e.column();
        r.push_back(t);
        delete l;
        if (r.size() > limit) break;
    }
    lexeme* again = NULL; (*s) >> again;        // Stays at the end
    if (again) { tok t; t.sym = -99; r.push_back(t); delete again; }
    delete s;
    return r;
}

struct pattern { const char* text; rxp re; };

// Reference tokenisation with derivatives
static std::vector<tok> reference(rx_factory& f, const std::vector<rxp>& res, const std::vector<int>& ids, const std::vector<int>& in) {
    std::vector<tok> out; refpos p;
    size_t i = 0;
    while (i < in.size()) {
        std::vector<rxp> cur = res;
        int best = -1; size_t len = 1;
        for (size_t j = i; j < in.size(); ++j) {
            bool live = false; int here = -1;
            for (size_t k = 0; k < cur.size(); ++k) {
                cur[k] = f.derive(cur[k], in[j]);
                if (cur[k]->k != rx::none) live = true;
                if (cur[k]->nullable && (here < 0 || ids[k] < here)) here = ids[k];
            }
            if (here >= 0) { best = here; len = j - i + 1; }
            if (!live) break;
        }
        tok t; t.sym = best; t.text.assign(in.begin() + i, in.begin() + i + len);
        t.off = p.off; t.line = p.line; t.col = p.col;
        refpos e; e.off = p.off; e.line = p.line; e.col = p.col;        // A lexeme's own end doesn't know about a preceding CR
        for (int c : t.text) { p.step(c); e.step(c); }
        t.eoff = e.off; t.eline = e.line; t.ecol = e.col;
        out.push_back(t);
        i += len;
    }
    return out;
}

static void all_strings(const std::vector<int>& alpha, int maxLen, std::function<void(const std::vector<int>&)> fn) {
    std::vector<int> s;
    std::function<void()> rec = [&] { fn(s); if ((int)s.size() == maxLen) return; for (int c : alpha) { s.push_back(c); rec(); s.pop_back(); } };
    rec();
}

static void tokens() {
    rx_factory f;
    auto A = f.chr('a'), B = f.chr('b'), C = f.chr('c'), NL = f.chr('\n');
    std::vector<pattern> pool = {
        {"a", A}, {"b", B}, {"a+", f.cat(A, f.star(A))}, {"ab", f.cat(A, B)}, {"a*b", f.cat(f.star(A), B)},
        {"(ab)*", f.star(f.cat(A, B))}, {"abc", f.cat(A, f.cat(B, C))}, {"[ab]+", f.cat(f.chars({{'a','c'}}), f.star(f.chars({{'a','c'}})))},
        {"a(bb)*", f.cat(A, f.star(f.cat(B, B)))}, {"[^a]", f.alt(f.chars({{0,'a'}}), f.chars({{'b',0x10000}}))}, {"a?c", f.cat(f.alt(A, f.empty()), C)}, {"\\n", NL},
        {"b|ba|bab", f.alt(B, f.alt(f.cat(B, A), f.cat(B, f.cat(A, B))))} };
    bool th = cfg().thorough;
    std::vector<int> alpha = {'a', 'b', 'c', '\n'};
    long long index = 0;
    std::vector<std::vector<int>> inputs;
    all_strings(alpha, th ? 6 : 5, [&](const std::vector<int>& s) { inputs.push_back(s); });
    int n = (int)pool.size();
    for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) for (int k = j; k < n; ++k) for (int perm = 0; perm < (i == k ? 1 : th ? 6 : 2); ++perm) {
        long long me = index++;
        if (!begin_case("tokens", me)) continue;
        // Symbol ids: permutation decides which of the patterns has priority
        std::vector<int> pats = {i, j, k}; pats.erase(std::unique(pats.begin(), pats.end()), pats.end());
        std::vector<int> ids;
        static const int perms[6][3] = {{0,1,2},{2,1,0},{1,0,2},{0,2,1},{1,2,0},{2,0,1}};
        for (size_t x = 0; x < pats.size(); ++x) ids.push_back(perms[perm][x] * 2 + 1);
        std::ostringstream d; std::vector<rxp> rs;
        for (size_t x = 0; x < pats.size(); ++x) { d << pool[pats[x]].text << "=" << ids[x] << " "; rs.push_back(pool[pats[x]].re); }
        describe(d.str());
        std::vector<std::pair<std::string, basic_lexer*>> lexers;
        { lexer* l = new lexer(); for (size_t x = 0; x < pats.size(); ++x) l->add_symbol(std::string(pool[pats[x]].text), ids[x]); if (!l->verify()) violation("lexer " + d.str(), "verify() is false"); l->compile(false); lexers.push_back({"flat", l}); }
        { lexer* l = new lexer(); for (size_t x = 0; x < pats.size(); ++x) l->add_symbol(std::string(pool[pats[x]].text), ids[x]); l->compile(true); lexers.push_back({"compact", l}); }
        {   // The way the compiler's lexer stage builds it
            ndfa_regex nr; for (size_t x = 0; x < pats.size(); ++x) nr.add_regex(0, std::string(pool[pats[x]].text), accept_action(ids[x]));
            ndfa* u = nr.to_ndfa_with_unique_symbols(); ndfa* q = u->to_dfa(); ndfa* c = q->to_compact_dfa(); ndfa* m = c->to_ndfa_with_merged_symbols();
            lexers.push_back({"compacted", new lexer(*m)});
            delete u; delete q; delete c; delete m;
        }
        for (size_t n = 0; n < inputs.size(); ++n) {
            const std::vector<int>& in = inputs[n];
            std::vector<tok> want = reference(f, rs, ids, in);
            ++res().states; res().transitions += want.size();
            if (want.size() > 1) ++res().nontrivial;
            for (auto& l : lexers) {
                std::wstring w(in.begin(), in.end());
                std::vector<tok> got;
                if (l.first == "flat") {
                    std::string s(in.begin(), in.end()); std::stringstream str(s);
                    got = read_all(l.second->create_stream_from(str), 50);
                } else if (l.first == "compact") {
                    util::wstringreader r(w);
                    got = read_all(l.second->create_stream_from<wchar_t>(r), 50);
                } else {
                    std::string s(in.begin(), in.end()); std::stringstream str(s); util::utf8reader r(&str);
                    got = read_all(l.second->create_stream_from<wchar_t>(r), 50);
                }
                ++res().traces;
                if (!(got == want)) { violation(l.first + " lexer " + d.str() + " input \"" + show(in) + "\"", "got " + show(got) + " expected " + show(want)); break; }
            }
        }
        if (index % 100 == 1) sample("lexer " + d.str());
        for (auto& l : lexers) delete l.second;
    }
    // Start conditions: state 1 after a newline and at the start, state 0 otherwise; set_initial_state
    typedef dfa_lexer<wchar_t, state_machine_flat_table, 1, 1> line_lexer;
    struct { const char* p0; const char* p1; rxp r0, r1; } conds[] = { {"a", "ab", A, f.cat(A, B)}, {"a+", "a", f.cat(A, f.star(A)), A}, {"\\n", "b+", NL, f.cat(B, f.star(B))}, {"a*b", "[ab]+", f.cat(f.star(A), B), f.cat(f.chars({{'a','c'}}), f.star(f.chars({{'a','c'}})))} };
    for (int ci = 0; ci < 4; ++ci) {
        if (!begin_case("start-conditions", ci, std::string(conds[ci].p0) + " / " + conds[ci].p1)) continue;
        ndfa_regex nr; int s1 = nr.add_state();
        nr.add_regex(0, std::string(conds[ci].p0), accept_action(3)); nr.add_regex(s1, std::string(conds[ci].p1), accept_action(5));
        nr.add_regex(0, std::string("\\n"), accept_action(9)); nr.add_regex(s1, std::string("\\n"), accept_action(9));
        std::vector<int> st = {0, s1};
        ndfa* u = nr.to_ndfa_with_unique_symbols(); ndfa* d = u->to_dfa(st); ndfa* c = d->to_compact_dfa(std::vector<int>{0, 1});
        for (int v = 0; v < 2; ++v) {
            line_lexer l(v ? *c : *d);
            for (auto& in : inputs) {
                std::vector<tok> want; refpos p; size_t i = 0; bool nl = true;
                while (i < in.size()) {
                    rxp cur[2] = { nl ? conds[ci].r1 : conds[ci].r0, NL }; int id[2] = { nl ? 5 : 3, 9 };
                    int best = -1; size_t len = 1;
                    for (size_t j = i; j < in.size(); ++j) for (int k = 0, here = 0; k < 2; ++k) { cur[k] = f.derive(cur[k], in[j]); if (cur[k]->nullable && !here) { best = id[k]; len = j - i + 1; here = 1; } }
                    tok t; t.sym = best; t.text.assign(in.begin() + i, in.begin() + i + len); t.off = p.off; t.line = p.line; t.col = p.col;
                    refpos e; e.off = p.off; e.line = p.line; e.col = p.col; for (int ch : t.text) { p.step(ch); e.step(ch); }
                    t.eoff = e.off; t.eline = e.line; t.ecol = e.col; want.push_back(t);
                    nl = t.text.back() == '\n'; i += len;
                }
                std::wstring w(in.begin(), in.end()); util::wstringreader r(w);
                std::vector<tok> got = read_all(l.create_stream_from<wchar_t>(r), 50);
                ++res().traces; ++res().states;
                if (!(got == want)) { violation("start-conditions " + std::to_string(ci) + " input \"" + show(in) + "\"", "got " + show(got) + " expected " + show(want)); break; }
            }
        }
        delete u; delete d; delete c;
    }
    // Character lexer: one lexeme per character
    if (begin_case("character-lexer", 0)) {
        character_lexer l;
        for (auto& in : inputs) {
            std::wstring w(in.begin(), in.end()); util::wstringreader r(w);
            std::vector<tok> got = read_all(l.create_stream_from<wchar_t>(r), 50), want; refpos p;
            for (int c : in) { tok t; t.sym = c; t.text.push_back(c); t.off = p.off; t.line = p.line; t.col = p.col; refpos e; e.off = p.off; e.line = p.line; e.col = p.col; p.step(c); e.step(c); t.eoff = e.off; t.eline = e.line; t.ecol = e.col; want.push_back(t); }
            ++res().traces;
            if (!(got == want)) { violation("character-lexer input \"" + show(in) + "\"", "got " + show(got) + " expected " + show(want)); break; }
        }
    }
    // Every character of every plane-0 code unit: a lexer over the whole alphabet sees each one as itself
    if (begin_case("all-code-units", 0)) {
        lexer l; l.add_symbol(std::wstring(L"[\\u0000-\\u7fff]"), 1); l.add_symbol(std::wstring(L"[\\u8000-\\uffff]"), 2);
        for (int c = 0; c < 0x10000; ++c) {
            std::wstring w(1, (wchar_t)c); w += L'x'; util::wstringreader r(w);
            std::vector<tok> got = read_all(l.create_stream_from<wchar_t>(r), 5);
            ++res().traces;
            if (got.size() != 2 || got[0].text.size() != 1 || got[0].text[0] != c || got[0].sym != (c < 0x8000 ? 1 : 2) || got[1].sym != 1) { violation("all-code-units " + std::to_string(c), "got " + show(got)); break; }
        }
        for (int c = 0; c < 0x100; ++c) {
            std::string w(1, (char)c); w += 'x'; std::stringstream r(w);
            std::vector<tok> got = read_all(l.create_stream_from(r), 5);
            ++res().traces;
            if (got.size() != 2 || got[0].text.size() != 1 || (got[0].text[0] & 0xff) != c || got[0].sym != 1 || got[1].sym != 1) { violation("all-bytes " + std::to_string(c), "got " + show(got)); break; }
        }
    }
}

// ---- UTF-8
// Returns the UTF-16 units, and whether the stream ended cleanly; unspecified is set for overlong 2/3 byte forms and encoded surrogates
static std::vector<int> decode(const std::string& s, bool& bad, bool& unspecified) {
    std::vector<int> o; bad = false; unspecified = false; size_t i = 0;
    while (i < s.size()) {
        unsigned c = (unsigned char)s[i];
        int n = c < 0x80 ? 0 : (c & 0xe0) == 0xc0 ? 1 : (c & 0xf0) == 0xe0 ? 2 : (c & 0xf8) == 0xf0 ? 3 : -1;
        if (n < 0) { bad = true; return o; }
        if (i + n >= s.size()) { bad = true; return o; }
        unsigned v = n == 0 ? c : n == 1 ? c & 0x1f : n == 2 ? c & 0xf : c & 7;
        for (int k = 1; k <= n; ++k) { unsigned x = (unsigned char)s[i + k]; if ((x & 0xc0) != 0x80) { bad = true; return o; } v = (v << 6) | (x & 0x3f); }
        if ((n == 1 && v < 0x80) || (n == 2 && v < 0x800) || (n == 2 && v >= 0xd800 && v < 0xe000)) { unspecified = true; return o; }
        if (n == 3 && (v < 0x10000 || v > 0x10ffff)) { bad = true; return o; }
        if (v < 0x10000) o.push_back(v); else { o.push_back(0xd800 + ((v - 0x10000) >> 10)); o.push_back(0xdc00 + ((v - 0x10000) & 0x3ff)); }
        i += n + 1;
    }
    return o;
}
static std::string encode(unsigned v) {
    std::string s;
    if (v < 0x80) s += (char)v;
    else if (v < 0x800) { s += (char)(0xc0 | (v >> 6)); s += (char)(0x80 | (v & 0x3f)); }
    else if (v < 0x10000) { s += (char)(0xe0 | (v >> 12)); s += (char)(0x80 | ((v >> 6) & 0x3f)); s += (char)(0x80 | (v & 0x3f)); }
    else { s += (char)(0xf0 | (v >> 18)); s += (char)(0x80 | ((v >> 12) & 0x3f)); s += (char)(0x80 | ((v >> 6) & 0x3f)); s += (char)(0x80 | (v & 0x3f)); }
    return s;
}
static void check_utf8(const std::string& bytes) {
    bool bad, unspec;
    std::vector<int> want = decode(bytes, bad, unspec);
    std::istringstream str(bytes); util::utf8reader r(&str);
    std::vector<int> got;
    wchar_t junk = L'Z';
    for (int k = 0; k < 64; ++k) { wchar_t c = junk; r.get(c); if (!r.good()) break; got.push_back((int)(unsigned)c); }
    ++res().traces; ++res().states; res().transitions += want.size();
    if (unspec) { if (got.size() < want.size() || !std::equal(want.begin(), want.end(), got.begin())) violation("utf8 " + narrow(bytes), "characters before an ill-formed sequence are wrong: got " + show(got) + " expected " + show(want)); return; }
    if (got != want) { violation("utf8 " + narrow(bytes), "got " + show(got) + " expected " + show(want)); return; }
    wchar_t c; r.get(c); if (r.good()) violation("utf8 " + narrow(bytes), "the reader becomes good again after the end");
}
static void input() {
    long long index = 0;
    for (unsigned base = 0; base < 0x110000; base += 0x400) {       // Every Unicode scalar value
        long long me = index++;
        if (!begin_case("scalar", me, "code points from " + std::to_string(base))) continue;
        for (unsigned v = base; v < base + 0x400; ++v) {
            if (v >= 0xd800 && v < 0xe000) continue;
            check_utf8(encode(v)); check_utf8("a" + encode(v) + "b"); ++res().nontrivial;
        }
    }
    static const int reps[] = {0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x103ff, 0x1f600, 0x10ffff};
    index = 0;
    for (int a : reps) for (int b : reps) { if (!begin_case("pairs", index++)) continue; for (int c : reps) { check_utf8(encode(a) + encode(b) + encode(c)); } }
    // All one and two byte strings, all lead bytes with boundary continuation bytes, every truncation
    static const int cont[] = {0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xe0, 0xff};
    for (int a = 0; a < 256; ++a) {
        if (!begin_case("bytes", a)) continue;
        check_utf8(std::string(1, (char)a));
        for (int b = 0; b < 256; ++b) { check_utf8(std::string(1, (char)a) + (char)b); check_utf8("x" + std::string(1, (char)a) + (char)b + "y"); }
        for (int b : cont) for (int c : cont) { std::string s; s += (char)a; s += (char)b; s += (char)c; check_utf8(s); for (int d : cont) { check_utf8(s + (char)d); check_utf8("x" + s + (char)d + "y"); } }
    }
    // String readers: every character is delivered, in order, then the reader stops being good for ever
    std::vector<int> alpha = {0, 'a', 0x0a, 0x80, 0xfd, 0xff};
    index = 0;
    all_strings(alpha, cfg().thorough ? 6 : 4, [&](const std::vector<int>& s) {
        if (!begin_case("stringreader", index++, show(s))) return;
        { std::string n(s.begin(), s.end()); util::stringreader r(n); std::vector<int> got; for (int k = 0; k < 32; ++k) { char c; r.get(c); if (!r.good()) break; got.push_back((unsigned char)c); } char c; r.get(c); if (got != s || r.good()) violation("stringreader " + show(s), "got " + show(got)); }
        { std::wstring n(s.begin(), s.end()); util::wstringreader r(n); std::vector<int> got; for (int k = 0; k < 32; ++k) { wchar_t c; r.get(c); if (!r.good()) break; got.push_back((int)c); } wchar_t c; r.get(c); if (got != s || r.good()) violation("wstringreader " + show(s), "got " + show(got)); }
        // ... and what a lexer is given is the same, whichever source it comes from
        character_lexer l;
        { std::string n(s.begin(), s.end()); std::stringstream str(n); std::vector<tok> t = read_all(l.create_stream_from(str), 50); std::vector<int> got; for (auto& x : t) for (int c : x.text) got.push_back(c); if (got != s) violation("narrow stream " + show(s), "got " + show(got)); }
        { std::wstring n(s.begin(), s.end()); std::wstringstream str(n); std::vector<tok> t = read_all(l.create_stream_from(str), 50); std::vector<int> got; for (auto& x : t) for (int c : x.text) got.push_back(c); if (got != s) violation("wide stream " + show(s), "got " + show(got)); }
        { std::wstring n(s.begin(), s.end()); util::wstringreader str(n); std::vector<tok> t = read_all(l.create_stream_from<wchar_t>(str), 50); std::vector<int> got; for (auto& x : t) for (int c : x.text) got.push_back(c); if (got != s) violation("lexed string " + show(s), "got " + show(got)); }
        res().traces += 5; ++res().states;
        sample("string " + show(s), 1);
    });
}

static void positions() {
    std::vector<int> alpha = {'x', '\n', '\r', 0x0b, 0x0c, 0x85, 0x2028, 0x2029};
    long long index = 0;
    all_strings(alpha, cfg().thorough ? 7 : 6, [&](const std::vector<int>& s) {
        if (!begin_case("positions", index++)) return;
        refpos want; position_tracker t; position last(0, 0, 0);
        for (size_t i = 0; i < s.size(); ++i) {
            want.step(s[i]); t.update_position(s[i]); ++res().transitions;
            position p = t.current_position();
            if (p.offset() != want.off || p.line() != want.line || p.column() != want.col) { std::ostringstream o; o << "after " << i + 1 << " characters: offset " << p.offset() << " line " << p.line() << " column " << p.column() << ", expected " << want.off << " " << want.line << " " << want.col; violation("position " + show(s), o.str()); return; }
            if (!(last < p) || p < last || last == p || !(p > last) || !(last <= p) || !(p >= last) || p <= last) { violation("position " + show(s), "positions aren't ordered like the input"); return; }
            last = p;
        }
        position_tracker r; r.update_position(s.begin(), s.end());
        if (r.current_position() != t.current_position()) violation("position " + show(s), "updating with a range differs from updating with each character");
        // Resuming from any point that isn't between CR and LF gives the same result
        for (size_t cut = 0; cut <= s.size(); ++cut) {
            if (cut > 0 && cut < s.size() && s[cut - 1] == '\r' && s[cut] == '\n') continue;
            position_tracker a; a.update_position(s.begin(), s.begin() + cut);
            position_tracker b(a.current_position()); b.update_position(s.begin() + cut, s.end());
            if (b.current_position() != t.current_position()) { violation("position " + show(s), "resuming after " + std::to_string(cut) + " characters gives another position"); return; }
            position_tracker c(a); c.update_position(s.begin() + cut, s.end());
            if (c.current_position() != t.current_position()) { violation("position " + show(s), "copying the tracker after " + std::to_string(cut) + " characters loses state"); return; }
            ++res().traces;
        }
        ++res().states; if (s.size() > 1) ++res().nontrivial;
        if (index == 5000) sample("position " + show(s));
    });
    // Ordering is the lexicographic one for all small positions
    if (begin_case("ordering", 0)) {
        std::vector<position> all; for (int l = 0; l < 3; ++l) for (int c = 0; c < 3; ++c) for (int o = 0; o < 3; ++o) all.push_back(position(o, l, c));
        for (auto& a : all) for (auto& b : all) {
            auto ka = std::make_tuple(a.line(), a.column(), a.offset()), kb = std::make_tuple(b.line(), b.column(), b.offset());
            if ((a < b) != (ka < kb) || (a == b) != (ka == kb) || (a > b) != (ka > kb) || (a <= b) != (ka <= kb) || (a >= b) != (ka >= kb) || (a != b) != (ka != kb)) violation("ordering", "comparison operators disagree");
            ++res().evaluations;
        }
    }
    // A lexeme's end is the position of the character after it
    index = 0;
    std::vector<int> alpha2 = {'x', '\n', '\r', 0x2028};
    lexer l; l.add_symbol(std::wstring(L"x[\\u0000-\\uffff]x"), 1); l.add_symbol(std::wstring(L"\\r\\n"), 2);
    l.compile();
    all_strings(alpha2, cfg().thorough ? 8 : 6, [&](const std::vector<int>& s) {
        if (!begin_case("lexeme-positions", index++)) return;
        std::wstring w(s.begin(), s.end()); util::wstringreader r(w);
        std::vector<tok> t = read_all(l.create_stream_from<wchar_t>(r), 50);
        refpos p; size_t at = 0; bool ok = true; std::ostringstream o;
        for (size_t i = 0; i < t.size() && ok; ++i) {
            if (t[i].off != p.off || t[i].line != p.line || t[i].col != p.col || t[i].off != (int)at) ok = false;
            int last = at ? s[at - 1] : 0; int firstc = t[i].text.empty() ? 0 : t[i].text[0];
            for (int c : t[i].text) { if (at >= s.size() || s[at] != c) ok = false; ++at; p.step(c); }
            if (!(last == '\r' && firstc == '\n') && (t[i].eoff != p.off || t[i].eline != p.line || t[i].ecol != p.col)) ok = false;
        }
        if (!ok || at != s.size()) violation("lexeme-positions " + show(s), "got " + show(t));
        ++res().traces;
    });
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [] {
        std::string what = cfg().extra.empty() ? "" : cfg().extra[0];
        if (what.empty() || what == "tokens") tokens();
        if (what.empty() || what == "input") input();
        if (what.empty() || what == "position") positions();
    });
}
