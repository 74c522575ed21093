// C22: every mistake in a definition is reported with its code and severity, in the file and at the place where it was made, and
// nothing else is. Definitions are put together from a sound frame and one or two mistakes, over all the places a mistake can be
// made in: which language (base or derived), which file, inside which EBNF item, behind which white space. The text carries marks
// for where the reports belong, so that the expected reports are known from the construction.
#include "compile.h"
#include <algorithm>
#include <set>
using namespace vp; using namespace comp;

enum { NOTE = 0, WARN = 1, ERR = 2 };
static int kind_of(compiler::error::severity s) { return s >= compiler::error::sev_error ? ERR : s == compiler::error::sev_warning ? WARN : NOTE; }

// Reports expected of a mistake: its code, at one of the marks, mentioning a text
struct want { int stage, kind; std::string code; std::vector<std::string> marks; std::string text; };
// Marks are written @name@ in the text
struct mistake { std::string name, text; std::vector<want> wants; bool reach = false; std::string tail; };

struct at { std::string file; int offset, line, col; bool operator<(const at& o) const { return std::tie(file, offset, line, col) < std::tie(o.file, o.offset, o.line, o.col); } };

// Takes the marks out of a file
static std::string unmark(const std::string& file, const std::string& text, std::map<std::string, at>& marks) {
    std::string o; int line = 0, col = 0;
    for (size_t i = 0; i < text.size(); ++i) {
        if (text[i] == '@') { size_t e = text.find('@', i + 1); at a; a.file = file; a.offset = (int) o.size(); a.line = line; a.col = col; marks[text.substr(i + 1, e - i - 1)] = a; i = e; continue; }
        o += text[i];
        if (text[i] == '\n') { if (o.size() > 1 && o[o.size() - 2] == '\r') { } else ++line; col = 0; }
        else if (text[i] == '\r') { ++line; col = 0; }
        else ++col;
    }
    return o;
}
static std::string number(std::string s, int n) { std::string o; for (char c : s) { if (c == '#') o += std::to_string(n); else o += c; } return o; }
// Letters for names and texts that must differ between the mistakes of one definition
static std::string letters(std::string s, int n) { std::string o; for (char c : s) { if (c == '$') o += std::string(1, (char) ('p' + n)); else o += c; } return o; }

static const char* base_lexer = "lexer { @a@a = 'a' @b@b = 'b' @c@c = 'c' } ";
static const char* base_grammar = "grammar { <S> = a <A> c @A@<A> = b } ";

struct outcome { bool done[4]; };
// Runs the stages as the command line tool does; the languages' names are those of the frame
static void run_stages(compilation& c, bool block) {
    if (!c.load("")) return;
    if (!c.build_languages()) return;
    if (!c.build_language(L"L")) return;
    c.language->report_unused_symbols();
    if (!c.build_lexer(L"L")) return;
    c.build_parser(L"L", { L"<S>" });
}

static std::string describe_at(const at& a) { return a.file + ":" + std::to_string(a.line) + ":" + std::to_string(a.col) + "(" + std::to_string(a.offset) + ")"; }

static void check_definition(const char* section, long long idx, const std::map<std::string, std::string>& files, const std::vector<want>& wants, const std::map<std::string, std::string>& options = {}) {
    std::string desc; for (auto& f : files) desc += (desc.empty() ? "" : " ## ") + f.first + ": " + f.second;
    for (auto& o : options) desc += " --" + o.first;
    for (char& ch : desc) if (ch == '\n' || ch == '\r' || ch == '\t') ch = ' ';
    if (!begin_case(section, idx, desc)) return;
    ++res().states; ++res().traces; ++res().evaluations;
    compilation c; std::map<std::string, at> marks;
    for (auto& f : files) c.sh.files[wide(f.first)] = unmark(f.first, f.second, marks);
    for (auto& o : options) c.sh.options[wide(o.first)] = { wide(o.second.empty() ? std::string("1") : o.second) };
    run_stages(c, false);
    // The first stage with an error is the last one to be run
    int last = 9; for (auto& w : wants) if (w.kind == ERR) last = std::min(last, w.stage);
    std::vector<const want*> expected; for (auto& w : wants) if (w.stage <= last) expected.push_back(&w);
    // Each report has to be wanted, each wanted one there
    std::vector<std::set<size_t>> hits(expected.size());
    for (size_t i = 0; i < c.sh.errors.size(); ++i) {
        auto& e = c.sh.errors[i]; ++res().transitions; bool found = false;
        for (size_t k = 0; k < expected.size(); ++k) {
            const want& w = *expected[k];
            if (narrow(e.id) != w.code || kind_of(e.sev) != w.kind) continue;
            if (!w.text.empty() && narrow(e.desc).find(w.text) == std::string::npos) continue;
            bool here = false;
            for (auto& m : w.marks) {
                if (m.empty()) { if (e.line < 0 && e.file == L"main.tp") here = true; continue; }
                auto f = marks.find(m); if (f == marks.end()) { violation("internal " + desc, "no mark " + m); return; }
                if (narrow(e.file) == f->second.file && e.line == f->second.line && e.col == f->second.col && e.offset == f->second.offset) here = true;
            }
            if (here) { hits[k].insert(i); found = true; break; }
        }
        if (!found) {
            at a; a.file = narrow(e.file); a.offset = e.offset; a.line = e.line; a.col = e.col;
            violation("unexpected " + narrow(e.id) + " " + desc, "reported at " + describe_at(a) + ": " + narrow(e.desc) + " :: all reports: " + c.errors_text()); return;
        }
    }
    for (size_t k = 0; k < expected.size(); ++k) if (hits[k].empty()) {
        const want& w = *expected[k]; std::string where; for (auto& m : w.marks) if (!m.empty()) where += " " + describe_at(marks[m]);
        violation("missing " + w.code + " " + desc, "nothing reported at" + where + " :: all reports: " + c.errors_text()); return;
    }
    if (!wants.empty()) ++res().nontrivial;
    if (idx % 211 == 7) sample(desc);
}

// ---- The mistakes. '#' is the number of the mistake in the definition (names), '$' a letter of its own (texts)
static want W(int stage, int kind, const char* code, std::vector<std::string> marks, const char* text = "") { return want{ stage, kind, code, marks, text }; }
static const std::vector<std::string>& wraps() {
    static std::vector<std::string> w = { "%", "b %", "(%)*", "(%)+", "(%)?", "(b | %)", "(% | b)", "(b (c %)*)?", "b | %", "% | b b", "(b | (c | %))", "(a (b)* %)+ c" };
    return w;
}
static std::string wrap(const std::string& w, const std::string& item) { std::string o; for (char c : w) if (c == '%') o += item; else o += c; return o; }

static std::vector<mistake> mistakes() {
    std::vector<mistake> r;
    auto add = [&](const char* name, const std::string& text, std::vector<want> w) { r.push_back(mistake{ name, text, w }); };
    add("none", "grammar { <X#> = b } ", {});
    add("undefined-nonterminal", "grammar { <X#> = b @m#@<Nope#> <Y#> = <Nope#> } ", { W(1, ERR, "UNDEFINED_NONTERMINAL", { "m#" }, "Nope#") });
    add("implicit", "grammar { <X#> = b @m#@nope$ nope$ } ", { W(1, WARN, "IMPLICIT_LEXER_SYMBOL", { "m#" }, "nope$") });
    add("string", "grammar { <X#> = b \"z$z\" '$' } ", {});
    add("precedence", "precedence { left @m#@qu$ right b } ", { W(1, ERR, "UNDEFINE_TERMINAL", { "m#" }, "qu$") });
    add("precedence-list", "precedence { left { a @m#@qu$ b @n#@qv$ } } ", { W(1, ERR, "UNDEFINE_TERMINAL", { "m#" }, "qu$"), W(1, ERR, "UNDEFINE_TERMINAL", { "n#" }, "qv$") });
    add("empty-guard", "grammar { <X#> = b [=>@m#@] c c a } ", { W(1, WARN, "EMPTY_GUARD", { "m#" }) });
    add("ineffective-guard", "grammar { <X#> = b | [=> @m#@<E#>] a <E#> = a | } ", { W(1, ERR, "INEFFECTIVE_GUARD", { "m#" }) });
    add("ineffective-guard-2", "grammar { <X#> = b ( [=> @m#@(a)* (b)?] a)* } ", { W(1, ERR, "INEFFECTIVE_GUARD", { "m#" }) });
    add("duplicate-nonterminal", "grammar { <X#> = b @m#@<X#> = c } ", { W(1, ERR, "DUPLICATE_NONTERMINAL_DEFINITION", { "m#" }, "X#") });
    add("duplicate-lexer", "lexer { u$ = /w$/ @m#@u$ = 'x' } grammar { <X#> = u$ } ", { W(1, ERR, "DUPLICATE_LEXER_SYMBOL", { "m#" }, "u$") });
    add("duplicate-keyword", "keywords { k$ } keywords { @m#@k$ } grammar { <X#> = k$ } ", { W(1, ERR, "DUPLICATE_LEXER_SYMBOL", { "m#" }, "k$") });
    add("missing-adding", "lexer { @m#@u$ |= 'x' } ", { W(1, ERR, "MISSING_LEXER_SYMBOL_FOR_ADDING", { "m#" }, "u$") });
    add("missing-replacing", "lexer { @m#@replace u$ = 'x' } ", { W(1, ERR, "MISSING_LEXER_SYMBOL_FOR_REPLACING", { "m#" }, "u$") });
    add("unused", "lexer { v$ = /v$/ @m#@u$ = /w$/ } grammar { <X#> = v$ } ", { W(2, WARN, "UNUSED_TERMINAL_SYMBOL", { "m#" }, "u$") });
    add("unused-keyword", "keywords { kv$ @m#@k$ } grammar { <X#> = kv$ } ", { W(2, WARN, "UNUSED_TERMINAL_SYMBOL", { "m#" }, "k$") });
    add("unused-ignored", "ignore { i$ = /i$/ } ", {});
    add("bracket", "lexer { u$ = /w$@m#@(x/ } grammar { <X#> = u$ } ", { W(3, ERR, "BAD_REGULAR_EXPRESSION", { "m#" }) });
    add("square", "lexer { u$ = /w$@m#@[x/ } grammar { <X#> = u$ } ", { W(3, ERR, "BAD_REGULAR_EXPRESSION", { "m#" }) });
    add("unknown-expression", "lexer { u$ = /w$@m#@{nope$}x/ } grammar { <X#> = u$ } ", { W(3, ERR, "BAD_REGULAR_EXPRESSION", { "m#" }, "nope$") });
    add("ignore-bracket", "ignore { u$ = /w$@m#@(x/ } ", { W(3, ERR, "BAD_REGULAR_EXPRESSION", { "m#" }) });
    add("clash", "grammar { <X#> = u$ } ", { W(3, WARN, "SYMBOL_CANNOT_BE_GENERATED", { "m#" }, "u$"), W(3, NOTE, "SYMBOL_CLASHES_WITH", { "a" }, "u$") });
    r.back().tail = "lexer { @m#@u$ = 'a' } ";
    add("clash-2", "lexer { @n#@v$ = /w$+/ @m#@u$ = /w$$/ } grammar { <X#> = u$ v$ } ", { W(3, WARN, "SYMBOL_CANNOT_BE_GENERATED", { "m#" }, "u$"), W(3, NOTE, "SYMBOL_CLASHES_WITH", { "n#" }, "u$") });
    add("duplicate-expression", "lexer-symbols { e$ = /w$/ } lexer-symbols { @m#@e$ = /x/ } ", { W(1, ERR, "DUPLICATE_LEXER_SYMBOL", { "m#" }, "e$") });
    add("missing-expression-adding", "lexer-symbols { d$ = /w$/ @m#@e$ |= /x/ } ", { W(1, ERR, "MISSING_LEXER_SYMBOL_FOR_ADDING", { "m#" }, "e$") });
    add("missing-expression-replacing", "lexer-symbols { @m#@replace e$ = /x/ } ", { W(1, ERR, "MISSING_LEXER_SYMBOL_FOR_REPLACING", { "m#" }, "e$") });
    add("recursive-expression", "lexer-symbols { d$ = /w$/ e$ = @m#@/w$({d$}|{e$}x)/ } lexer { u$ = /{e$}/ } grammar { <X#> = u$ } ", { W(3, ERR, "RECURSIVE_LEXER_SYMBOL", { "m#" }, "e$") });
    add("recursive-expressions", "lexer-symbols { d$ = /v$|{e$}/ e$ = @m#@/{d$}/ } lexer { u$ = /w$+{e$}/ } grammar { <X#> = u$ } ", { W(3, ERR, "RECURSIVE_LEXER_SYMBOL", { "m#" }, "e$") });
    add("expressions", "lexer-symbols { e$ = /w$/ e$ |= /v$/ d$ = /x/ replace d$ = /zz$/ } lexer { u$ = /{e$}{d$}/ } grammar { <X#> = u$ } ", {});
    add("wrong-block", "keywords { u$ = \"w$\" } lexer { @m#@u$ |= /x$/ } grammar { <X#> = u$ } ", { W(1, ERR, "CANNOT_ADD_TO_DIFFERENT_LEXER_SYMBOL_TYPE", { "m#" }, "u$") });
    add("wrong-block-2", "lexer { u$ = /w$/ } ignore { @m#@u$ |= /x$/ } grammar { <X#> = u$ } ", { W(1, ERR, "CANNOT_ADD_TO_DIFFERENT_LEXER_SYMBOL_TYPE", { "m#" }, "u$") });
    add("duplicate-base", "", { W(1, ERR, "DUPLICATE_LEXER_SYMBOL", { "m#" }, "b") });
    r.back().tail = "lexer { @m#@b = /zzz$/ } ";
    add("duplicate-rule-base", "", { W(1, ERR, "DUPLICATE_NONTERMINAL_DEFINITION", { "m#" }, "A") });
    r.back().tail = "grammar { @m#@<A> = c $ } lexer { $ = /z$/ } ";
    add("several", "grammar { <X#> = (@m#@<Nope#> | @n#@nope$)* @o#@<Nein#> <Y#> = <Nein#> <Nope#> nope$ } ", { W(1, ERR, "UNDEFINED_NONTERMINAL", { "m#" }, "Nope#"), W(1, ERR, "UNDEFINED_NONTERMINAL", { "o#" }, "Nein#"), W(1, WARN, "IMPLICIT_LEXER_SYMBOL", { "n#" }, "nope$") });
    add("guard-keyword", "keywords { k$ } grammar { <X#> = [=> a k$] a | b } ", {});
    add("implicit-guard", "grammar { <X#> = [=> a @m#@nope$] a | b } ", { W(1, WARN, "IMPLICIT_LEXER_SYMBOL", { "m#" }, "nope$") });
    r.push_back(mistake{ "optional-conflict", "grammar { <X#> = @m#@(a)? a } ", { W(4, WARN, "CONFLICT_SHIFT_REDUCE", { "m#", "t#" }), W(4, NOTE, "DETAIL_REDUCE", { "m#" }) }, true });
    r.push_back(mistake{ "inner-conflict", "grammar { <X#> = a @n#@(@m#@<E#>)+ <E#> = @o#@b | b @p#@(c)? } ", { W(4, ERR, "CONFLICT_REDUCE_REDUCE", { "o#", "p#" }), W(4, NOTE, "DETAIL_REDUCE", { "o#", "p#" }) }, true });
    r.push_back(mistake{ "shift-reduce", "grammar { <X#> = @m#@a a | @o#@<Y#> a <Y#> = @n#@a } ", { W(4, WARN, "CONFLICT_SHIFT_REDUCE", { "m#" }), W(4, NOTE, "DETAIL_REDUCE", { "n#" }) }, true });
    r.push_back(mistake{ "reduce-reduce", "grammar { <X#> = @o#@<Y#> | @p#@<Z#> <Y#> = @m#@a <Z#> = @n#@a } ", { W(4, ERR, "CONFLICT_REDUCE_REDUCE", { "m#" }), W(4, NOTE, "DETAIL_REDUCE", { "n#" }) }, true });
    r.push_back(mistake{ "clashing-guards", "grammar { <X#> = @m#@[=> a b] <Y#> | @n#@[=> a c] <Z#> <Y#> = a b <Z#> = a c } ", { W(4, WARN, "CLASHING_GUARDS", { "m#", "n#" }), W(4, NOTE, "CLASHING_GUARDS_DETAIL", { "m#" }), W(4, NOTE, "CLASHING_GUARDS_DETAIL", { "n#" }) }, true });
    const char* can = "[=>[can-clash] ";
    for (int g = 1; g < 4; ++g) {
        std::string g1 = g & 1 ? can : "[=> ", g2 = g & 2 ? can : "[=> ";
        r.push_back(mistake{ "can-clash-" + std::to_string(g), "grammar { <X#> = @m#@" + g1 + "a b] <Y#> | @n#@" + g2 + "a c] <Z#> <Y#> = a b <Z#> = a c } ", {}, true });
        if (g != 3) r.back().wants = { W(4, WARN, "CLASHING_GUARDS", { g == 1 ? "n#" : "m#" }), W(4, NOTE, "CLASHING_GUARDS_DETAIL", { "m#" }), W(4, NOTE, "CLASHING_GUARDS_DETAIL", { "n#" }) };
    }
    r.push_back(mistake{ "clashing-guards-inside", "grammar { <X#> = @o#@[=> a c] <Z#> | @m#@([=> a b] <Y#>)? b <Y#> = a b <Z#> = a c } ", { W(4, WARN, "CLASHING_GUARDS", { "m#", "o#" }), W(4, NOTE, "CLASHING_GUARDS_DETAIL", { "m#" }), W(4, NOTE, "CLASHING_GUARDS_DETAIL", { "o#" }) }, true });
    return r;
}
static mistake numbered(const mistake& m, int n) {
    mistake r = m; r.tail.clear(); auto f = [&](const std::string& s) { return letters(number(s, n), n); };
    r.text = f(m.text); for (auto& w : r.wants) { for (auto& x : w.marks) x = f(x); w.text = f(w.text); }
    // The mistakes in rules only show for rules that can be reached
    std::string path; for (int k = 0; k <= n; ++k) path += "c ";
    r.tail = f(m.tail);
    if (m.reach) r.tail = "grammar { <S> |= @t" + std::to_string(n) + "@" + path + "<X" + std::to_string(n) + "> } ";
    return r;
}

static const std::vector<std::string>& spaces() { static std::vector<std::string> s = { "", "\n", " \t", "// comment @ { language\n", "/* one\n two */ ", "\r\n\r\n  ", "\r", "/// doc\n\t" }; return s; }
static std::string spaced(const std::string& text, const std::string& space) {
    // The space goes in front of every mark and block
    std::string o; bool inMark = false, inRegex = false;
    for (size_t i = 0; i < text.size(); ++i) {
        if (text[i] == '/' ) inRegex = !inRegex;
        if (text[i] == '@' && !inMark && !inRegex) o += space;
        if (text[i] == '@') inMark = !inMark;
        o += text[i];
    }
    return o;
}

// Frames: where the two mistakes are
static const int n_frames = 7;
static std::map<std::string, std::string> frame(int f, std::string x, std::string y, const std::string& space, const std::string& xt = "", const std::string& yt = "") {
    if (f != 1) x += xt; y += yt;
    std::map<std::string, std::string> r; std::string L = base_lexer, G = base_grammar, s = space;
    switch (f) {
    case 0: r["main.tp"] = s + "language L { " + L + G + x + y + "}"; break;
    case 1: r["main.tp"] = "language L { " + x + s + L + G + y + xt + "}"; break;
    case 2: r["main.tp"] = s + "language B { " + L + G + x + "} " + s + "language L : B { " + y + "}"; break;
    case 3: r["main.tp"] = s + "import \"b.tp\" language L : B { " + y + "}"; r["b.tp"] = s + "language B { " + L + G + x + "}"; break;
    case 4: r["main.tp"] = s + "import \"b.tp\" language L : M { }"; r["b.tp"] = s + "import \"c.tp\" language M : B { " + y + "}"; r["c.tp"] = "language B { " + L + G + x + "}"; break;
    case 5: r["main.tp"] = s + "language L : M { } language M : B { " + x + "} import \"b.tp\" "; r["b.tp"] = "language B { " + L + G + y + "}"; break;
    case 6: r["main.tp"] = "import \"b.tp\" " + s + "parser P : L { <S> }"; r["b.tp"] = s + "language L { " + L + G + x + "\n" + y + "}"; break;
    }
    return r;
}

static void cases(bool th) {
    auto ms = mistakes(); long long idx = 0;
    // Every mistake alone, in every frame, behind every space
    for (size_t m = 0; m < ms.size(); ++m) for (int f = 0; f < n_frames; ++f) for (auto& s : spaces()) for (int side = 0; side < 2; ++side) {
        mistake x = numbered(ms[m], 0); std::string t = spaced(x.text, s.find('@') == std::string::npos ? s : "\n");
        std::string sp = s; sp.erase(std::remove(sp.begin(), sp.end(), '@'), sp.end());
        check_definition("single", idx++, frame(f, side ? "" : t, side ? t : "", sp, side ? "" : x.tail, side ? x.tail : ""), x.wants);
    }
    // All pairs, in every frame
    idx = 0;
    for (size_t m = 0; m < ms.size(); ++m) for (size_t k = 0; k < ms.size(); ++k) for (int f = 0; f < n_frames; ++f) {
        ++idx;
        // Guards that are the same are one item of the grammar, which has one place
        if (m == k && (ms[m].name == "empty-guard" || ms[m].name == "ineffective-guard-2" || ms[m].name == "optional-conflict" || ms[m].name == "inner-conflict")) continue;
        mistake x = numbered(ms[m], 0), y = numbered(ms[k], 1); std::vector<want> w = x.wants; w.insert(w.end(), y.wants.begin(), y.wants.end());
        check_definition("pair", idx, frame(f, x.text, y.text, "\n", x.tail, y.tail), w);
        // A third mistake, next to either of them
        if (th) for (size_t q = 0; q < ms.size(); ++q) {
            if ((q == m || q == k) && (ms[q].name == "empty-guard" || ms[q].name == "ineffective-guard-2" || ms[q].name == "optional-conflict" || ms[q].name == "inner-conflict")) continue;
            mistake z = numbered(ms[q], 2); std::vector<want> w3 = w; w3.insert(w3.end(), z.wants.begin(), z.wants.end()); bool left = (m + k + q + f) % 2;
            check_definition("triple", (idx - 1) * (long long) ms.size() + (long long) q, frame(f, left ? x.text + z.text : x.text, left ? y.text : y.text + z.text, " ", x.tail + (left ? z.tail : ""), y.tail + (left ? "" : z.tail)), w3);
        }
    }
    // Undefined and implicit symbols and guards inside every kind of item
    idx = 0;
    struct use { const char* item; std::vector<want> wants; };
    std::vector<use> uses = { { "@m@<Nope>", { W(1, ERR, "UNDEFINED_NONTERMINAL", { "m" }, "Nope") } }, { "@m@nope", { W(1, WARN, "IMPLICIT_LEXER_SYMBOL", { "m" }, "nope") } }, { "[=>@m@] a c", { W(1, WARN, "EMPTY_GUARD", { "m" }) } },
        { "[=> @m@(a)*] a c", { W(1, ERR, "INEFFECTIVE_GUARD", { "m" }) } }, { "[=> @m@<Nope>] a", { W(1, ERR, "UNDEFINED_NONTERMINAL", { "m" }, "Nope") } }, { "[=> a @m@nope] a", { W(1, WARN, "IMPLICIT_LEXER_SYMBOL", { "m" }, "nope") } }, { "\"st\" '!'", { } } };
    for (auto& u : uses) for (auto& v : wraps()) for (auto& v2 : wraps()) for (int f = 0; f < n_frames; ++f) {
        ++idx; if (!th && f != 0 && f != 3) continue;
        std::string inner = wrap(v, u.item); if (v.find('|') != std::string::npos && v[0] != '(' && v2 != "%") inner = "(" + inner + ")";
        std::string t = "grammar { <X> = " + wrap(v2, inner) + " } ";
        check_definition("nested", idx, frame(f, idx % 2 ? t : "", idx % 2 ? "" : t, ""), u.wants);
    }
    // The places inside regular expressions
    idx = 0;
    struct bad { const char* text; };
    std::vector<std::string> before = { "zz", "zza", "zz(a|b)*", "zz[a-z]", "zz\\(", "zz\\u0041", "zz\\\\", "zzx+y?", "zz{r}", "zz(a(b)c)" }, broken = { "@m@(", "@m@(a", "@m@[", "@m@[a-", "@m@{nope}", "@m@(a|[b]", "@m@(\\)" }, after = { "", "x", "\\]" };
    for (auto& x : before) for (auto& y : broken) for (auto& z : after) for (auto& blk : { "lexer", "weak lexer", "ignore", "lexer-symbols" }) for (int f = 0; f < n_frames; ++f) {
        ++idx; if (!th && f != 0 && f != 4) continue;
        std::string b = blk; bool symbols = b == "lexer-symbols";
        if (y == "@m@(\\)" && z == "x" && false) continue;
        std::string t = "lexer-symbols { r = /q/ } " + b + " { u = /" + x + y + z + "/ } " + (symbols ? "lexer { v = /{u}w/ } grammar { <X> = v } " : b == "ignore" ? "" : "grammar { <X> = u } ");
        check_definition("expression", idx, frame(f, t, "", ""), { W(3, ERR, "BAD_REGULAR_EXPRESSION", { "m" }) });
    }
    // Options
    idx = 0;
    auto find = [&](const char* n) { for (auto& m : ms) if (m.name == n) return numbered(m, 0); abort(); };
    for (int f = 0; f < n_frames; ++f) {
        mistake g = find("empty-guard"), sr = find("shift-reduce"), rr = find("reduce-reduce");
        check_definition("options", idx++, frame(f, g.text, "", "", g.tail), {}, { { "allow-empty-guards", "" } });
        auto w = sr.wants; w[0].kind = ERR; check_definition("options", idx++, frame(f, sr.text, "", "", sr.tail), w, { { "no-conflicts", "" } });
        w = rr.wants; w[0].kind = WARN; check_definition("options", idx++, frame(f, rr.text, "", "", rr.tail), w, { { "allow-reduce-conflicts", "" } });
        check_definition("options", idx++, frame(f, rr.text, "", "", rr.tail), rr.wants, { { "allow-reduce-conflicts", "" }, { "no-conflicts", "" } });
        if (false) check_definition("options", idx++, frame(f, rr.text, "", "", rr.tail), w, { { "show-conflict-details", "" } });
    }
}

// Conflicts with --show-conflict-details: for each conflict, what can be shifted, what can be reduced, and the items which these reductions lead back to
static void details(bool th) {
    typedef std::vector<std::string> body;
    auto bodies = [](const body& syms, int hi) { std::vector<std::string> out(1, ""), level(1, ""); for (int l = 0; l < hi; ++l) { std::vector<std::string> n; for (auto& x : level) for (auto& s : syms) n.push_back(x + (x.empty() ? "" : " ") + s); out.insert(out.end(), n.begin(), n.end()); level = n; } return out; };
    std::vector<std::string> xs = bodies({ "a", "b", "<X>", "<Y>" }, 3), more = bodies({ "a", "<X>", "<Y>" }, th ? 3 : 2); for (auto e : { "(a)? <Y>", "<Y> (<X> b)*", "(<Y> | b) a", "<Y> (a)+" }) more.push_back(e);
    std::vector<std::vector<std::string>> ys = { { "a", "" }, { "a <Y>", "b" }, { "<Y> <Y>", "a" }, { "<X>", "b" }, { "(a)*", "b" } };
    long long idx = 0;
    for (auto& x : xs) for (auto& x2 : more) if (x != x2) for (auto& y : ys) for (int twoFiles = 0; twoFiles < 2; ++twoFiles) {
        if (!begin_case("details", idx++, x + " | " + x2 + ", " + y[0] + " | " + y[1])) continue;
        compilation c; c.sh.options[L"show-conflict-details"].push_back(L"1"); c.sh.options[L"allow-reduce-conflicts"].push_back(L"1");
        // One rule to a line
        std::string lexer = " lexer { a = /a/ b = /b/ }", xr = "\n<X> =\n" + x + "\n|\n" + x2 + "\n", yr = "\n<Y> =\n" + y[0] + "\n|\n" + y[1] + "\n"; std::map<std::string, std::pair<std::wstring, int>> lineOf;
        c.sh.input = L"main.tp"; std::string text = twoFiles ? "import \"b.tp\" language L : B { grammar {" + xr + "} }" : "language L {" + lexer + " grammar {" + xr + yr + "} }";
        if (twoFiles) c.sh.files[L"b.tp"] = "language B {" + lexer + "\n\n\n\n\n\n\n\n\n\n grammar {" + yr + "} grammar { <X> = <Y> b b } }";
        if (twoFiles) text = "import \"b.tp\" language L : B { grammar { replace <X> = <Y> } grammar { <X> |= " + xr.substr(6) + "} }";
        ++res().evaluations;
        if (!c.load(text) || !c.build_languages() || !c.build_language(L"L") || !c.build_lexer(L"L")) { violation("details " + text, c.errors_text()); continue; }
        c.sh.errors.clear(); c.build_parser(L"L", { L"<X>" }); if (!c.lr->get_parser()) { violation("details " + text, "there is no parser"); continue; }
        const lr::lalr_builder& b = *c.lr->get_parser(); const contextfree::grammar& g = *c.language->grammar(); const contextfree::terminal_dictionary& d = *c.language->terminals();
        typedef std::multiset<std::string> report; std::multiset<report> want, got;
        auto place = [&](const contextfree::rule& r) { int id = r.identifier(g); return "@" + utf8(c.language->rule_definition_file(id)) + ":" + std::to_string(c.language->rule_definition_pos(id).line()); };
        lr::conflict_list cl; lr::conflict::find_conflicts(b, cl);
        for (auto& cf : cl) {
            report r; std::string on = " '" + utf8(yy_language::formatter::to_string(*cf->token(), g, d)) + "': "; bool shift = cf->first_shift_item() != cf->last_shift_item(), first = true;
            auto item_text = [&](const lr::lr0_item& i) { return utf8(yy_language::formatter::to_string(i, g, d)); };
            for (auto i = cf->first_shift_item(); i != cf->last_shift_item(); ++i, first = false) r.insert((first ? "1 CONFLICT_SHIFT_REDUCE Shift/reduce conflict on" + on : "0 CONFLICT_SHIFT_REDUCE in: ") + item_text(**i) + place(*(*i)->rule()));
            for (auto i = cf->first_reduce_item(); i != cf->last_reduce_item(); ++i, first = false) {
                r.insert((first && !shift ? "1 CONFLICT_REDUCE_REDUCE Reduce/reduce conflict on" + on : "0 DETAIL_REDUCE or reduce: ") + utf8(yy_language::formatter::to_string(*i->first->rule(), g, d)) + place(*i->first->rule()));
                std::set<int> seen; std::vector<contextfree::item_container> todo(1, i->first->rule()->nonterminal());
                while (!todo.empty()) {
                    contextfree::item_container nt = todo.back(); todo.pop_back(); int id = g.identifier_for_item(nt); if (!seen.insert(id).second) continue;
                    for (auto& src : i->second) { const lr::lr0_item_container& it = (*b.machine().state_with_id(src.state_id))[src.item_id]; if (it->at_end() || g.identifier_for_item(it->rule()->items()[it->offset()]) != id) continue; r.insert("0 DETAIL_REDUCE_IN " + item_text(*it) + place(*it->rule())); todo.push_back(it->rule()->nonterminal()); }
                }
            }
            want.insert(r); count("conflicts");
        }
        report cur; bool any = false;
        for (auto& e : c.sh.errors) {
            std::string id = utf8(e.id), t = utf8(e.desc); if (id.compare(0, 8, "CONFLICT") && id.compare(0, 6, "DETAIL")) continue;
            int k = kind_of(e.sev); if (k != NOTE) { if (any) got.insert(cur); cur.clear(); any = true; }
            size_t p = t.find_first_not_of(' '); t = p == std::string::npos ? "" : t.substr(p);
            if (id == "DETAIL_REDUCE_IN") { if (t.compare(0, 4, "in: ") && t.compare(0, 4, "to: ")) t = "?" + t; else t = t.substr(4); }
            cur.insert(std::to_string(k) + " " + id + " " + t + "@" + utf8(e.file) + ":" + std::to_string(e.line)); ++res().transitions;
        }
        if (any) got.insert(cur);
        if (!cl.empty()) ++res().nontrivial;
        ++res().traces;
        if (want != got) { std::string o; for (auto& r : got) if (!want.count(r)) for (auto& s : r) o += s + "; "; o += " -- instead of -- "; for (auto& r : want) if (!got.count(r)) for (auto& s : r) o += s + "; "; violation("details " + text, "the reports are " + o); }
    }
}

int main(int argc, char** argv) { return run_main(argc, argv, [&]() { if (!cfg().extra.empty() && cfg().extra[0] == "details") details(cfg().thorough); else cases(cfg().thorough); }); }
