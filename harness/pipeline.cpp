// C23: verdicts of test blocks. C24: imports and inheritance between files. Definition files held in memory are put through
// TameParse's own stages. Modes: tests, imports.
#include "compile.h"
#include <memory>
#include <cstring>
using namespace vp; using namespace comp;

struct where { std::string file; int line, col; };
static bool at(const err& e, const where& w) { return narrow(e.file) == w.file && e.line == w.line && e.col == w.col; }
static std::string show(const where& w) { return w.file + ":" + std::to_string(w.line) + ":" + std::to_string(w.col); }

// ======== Test blocks
struct word { const char* text; int failS, failA; };          // Offset of the first token which can't be right for <S>, <A> (-1: none, -2: the end)
// <S> = a <S> b | a b;  <A> = b*
static const std::vector<word> words = {
    { "ab", -1, 0 }, { "aabb", -1, 0 }, { "", -2, -1 }, { "ba", 0, 1 }, { "a  b", -1, 0 }, { "aab", -2, 0 }, { " bb", 1, -1 }, { "ab ab", 3, 0 }, { "a ?", 2, 0 }, { "b b?", 0, 3 },
};
struct spec { int nt, type, wordNo, name; };            // nt: 0 S, 1 A, 2 undefined; type 0 =, 1 !=, 2 from; name: 0 none, 1 short, 2 the longest there's room for in the report, 3 longer, 4 much longer; wordNo -1: a missing file
static const char* tnt[] = { "<S>", "<A>", "<U>" };
static const char* ttype[] = { "=", "!=", "from" };
static std::string tname(int n) { return n == 0 ? "" : n == 1 ? "some-name" : std::string("a-very-long-name") + std::string(n == 2 ? 34 : n == 3 ? 35 : 95, 'x'); }
struct block_t { int lang; std::vector<spec> specs; };     // lang: 0 P, 1 Q (inherits P, in an imported file), 2 undefined, 3 R (in the same file as P, with the meanings of <S> and <A> swapped)
static const char* tlang[] = { "P", "Q", "Missing", "R" };

static void test_case(const char* section, long long idx, const std::vector<block_t>& blocks, int layout) {
    // Two things end TameParse when tests are run: these are explored in sections of their own
    bool longName = false, noSymbol = false;
    for (auto& b : blocks) for (auto& s : b.specs) if (b.lang != 2 && s.wordNo >= 0) { if (s.name > 2) longName = true; if (s.nt == 2) noSymbol = true; }
    if (longName != !strcmp(section, "long-name") || noSymbol != !strcmp(section, "undefined-nonterminal")) return;
    if (!begin_case(section, idx)) return;
    std::string text; int line = 0, col = 0;
    auto put = [&](const std::string& s) { for (char c : s) { text += c; if (c == '\n') { ++line; col = 0; } else ++col; } };
    struct want_t { std::string id; where w; bool fromEnd; int endCol; };
    std::vector<want_t> want; std::vector<std::string> totals; bool failing = false; int passedAll = 0, missing = 0, blockFailures = 0, emptyBlocks = 0; bool undefinedNt = false;
    std::string p = "language P { lexer { a = 'a' b = 'b' } ignore { ws = / +/ } grammar { <S> = a <S> b | a b <A> = b* } }\n"
        "language R { lexer { b = 'b' a = 'a' } ignore { ws = / +/ } grammar { <A> = a <A> b | a b <S> = b* } }\n";
    compilation c;
    c.sh.recordMessages = true;
    put("import \"q.tp\"\n");
    c.sh.files[L"q.tp"] = "language Q : P { grammar { <T> = a } }";
    put(p);
    for (size_t i = 0; i < words.size(); ++i) c.sh.files[wide("file" + std::to_string(i))] = words[i].text;
    for (auto& b : blocks) {
        where bw{ "main.tp", line, col };
        put(std::string("test ") + tlang[b.lang] + " {" + (layout ? "\n" : " "));
        int passed = 0, failed = 0; const spec* prev = NULL;
        if (b.lang == 2) { want.push_back({ "CANT_FIND_LANGUAGE", bw, false, 0 }); failing = true; }
        for (auto& s : b.specs) {
            // Strings of one definition share its head
            bool share = layout == 2 && prev && prev->nt == s.nt && prev->type == s.type;
            if (!share) put(std::string(layout ? "\t" : " ") + tnt[s.nt] + " " + ttype[s.type]);
            prev = &s;
            put(" ");
            if (s.name) put(tname(s.name) + "(");
            where sw{ "main.tp", line, col };
            std::string str = s.type == 2 ? s.wordNo < 0 ? std::string("nosuchfile") : "file" + std::to_string(s.wordNo) : words[s.wordNo].text;
            put("\"" + str + "\"");
            int endCol = col;
            if (s.name) put(")");
            if (layout) put("\n");
            if (b.lang == 2) continue;
            if (s.wordNo < 0) { want.push_back({ "TEST_FILE_NOT_FOUND", where{ "nosuchfile", -1, -1 }, false, 0 }); failing = true; ++missing; if (s.nt == 2) undefinedNt = true; continue; }
            if (s.nt == 2) { undefinedNt = true; failing = true; continue; }
            int f = (s.nt != 0) != (b.lang == 3) ? words[s.wordNo].failA : words[s.wordNo].failS;
            bool ok = (f == -1) != (s.type == 1);
            if (ok) { ++passed; continue; }
            ++failed; failing = true;
            where inside{ "main.tp", sw.line, sw.col + 1 };
            if (s.type == 2) want.push_back({ "TEST_SYNTAX_ERROR", where{ str, f == -2 ? -1 : 0, f == -2 ? -1 : f }, false, 0 });
            else {
                want.push_back({ "THIS_TEST_FAILED", inside, false, 0 });
                if (s.type == 0) want.push_back({ "FAILURE_POSITION", where{ "main.tp", sw.line, f == -2 ? endCol : sw.col + 1 + f }, f == -2, endCol });
            }
        }
        put("}\n");
        if (b.lang == 2) continue;
        bool blurred = false; for (auto& s : b.specs) if (s.nt == 2 || s.wordNo < 0) blurred = true;
        totals.push_back(blurred ? std::string() : std::string("    ") + tlang[b.lang] + ": " + std::to_string(passed) + "/" + std::to_string(passed + failed) + " passed");
        if (failed) { ++blockFailures; want.push_back({ "TESTS_FAILED", bw, false, 0 }); }
        if (b.specs.empty()) { ++emptyBlocks; want.push_back({ "NO_TESTS_TO_RUN", bw, false, 0 }); }
        passedAll += passed;
    }
    if (blocks.empty()) { failing = true; want.push_back({ "NO_TEST_BLOCKS", where{ "main.tp", -1, -1 }, false, 0 }); }
    std::string desc; for (char ch : text.substr(text.find("}\n", text.find("language R")) + 2)) desc += ch == '\n' || ch == '\t' ? ' ' : ch;
    describe(desc);
    ++res().states;
    if (!c.load(text)) { violation("load " + desc, c.errors_text()); return; }
    {
        compiler::test_stage tests(c.cc, c.sh.input, c.parser->definition_file(), c.import.get());
        tests.compile();
    }
    ++res().transitions; ++res().traces;
    if (c.failed() != failing) { violation("exit " + desc, std::string(failing ? "a test fails but the exit code is success: " : "every test passes but the exit code says failure: ") + c.errors_text()); return; }
    std::vector<const err*> left; for (auto& e : c.sh.errors) left.push_back(&e);
    for (auto& x : want) {
        bool found = false;
        for (size_t i = 0; i < left.size() && !found; ++i) {
            if (narrow(left[i]->id) != x.id) continue;
            if (x.fromEnd) { if (narrow(left[i]->file) != x.w.file || left[i]->line != x.w.line || left[i]->col < x.endCol - 1 || left[i]->col > x.endCol + 1) continue; }
            else if (!at(*left[i], x.w)) continue;
            left.erase(left.begin() + i); found = true;
        }
        if (!found) { violation("report " + desc, "expected " + x.id + " at " + show(x.w) + ", reported: " + c.errors_text()); return; }
    }
    for (auto* e : left) {
        std::string id = narrow(e->id);
        if (e->sev < compiler::error::sev_warning && e->sev != compiler::error::sev_detail) continue;
        if (id == "UNUSED_TERMINAL_SYMBOL") continue;
        if (undefinedNt && (id == "UNDEFINED_NONTERMINAL" || id == "NO_START_SYMBOLS" || id == "TESTS_FAILED" || id == "THIS_TEST_FAILED" || id == "FAILURE_POSITION" || id == "TEST_SYNTAX_ERROR" || id == "NO_TESTS_TO_RUN")) continue;
        if (missing && (id == "NO_TESTS_TO_RUN" || id == "TESTS_FAILED")) continue;
        violation("extra " + desc, "unexpected " + id + " in " + c.errors_text()); return;
    }
    if (undefinedNt && !c.count(L"UNDEFINED_NONTERMINAL")) { violation("undefined " + desc, "no complaint about the undefined nonterminal: " + c.errors_text()); return; }
    std::string msgs = narrow(c.sh.messages.str()); size_t from = 0;
    for (auto& t : totals) { if (t.empty()) continue; size_t f = msgs.find(t, from); if (f == std::string::npos) { violation("totals " + desc, "expected '" + t + "' in " + msgs); return; } from = f + 1; }
    if (c.sh.live) { violation("leak " + desc, "files left open"); return; }
    if (!want.empty() || passedAll) ++res().nontrivial;
    if (idx % 499 == 3) sample(desc);
}

// These end TameParse: they're explored by themselves
static void endings_mode() {
    long long idx = 0;
    for (int l = 0; l < 2; ++l) for (int n = 3; n < 5; ++n) for (int ty = 0; ty < 2; ++ty) test_case("long-name", idx++, { block_t{ l, { spec{ 0, ty, 0, n } } } }, 0);
    idx = 0;
    for (int l = 0; l < 2; ++l) for (int ty = 0; ty < 3; ++ty) test_case("undefined-nonterminal", idx++, { block_t{ l, { spec{ 2, ty, 0, 0 } } } }, 0);
}

static void tests_mode(bool th) {
    std::vector<spec> all;
    for (int nt = 0; nt < 3; ++nt) for (int ty = 0; ty < 3; ++ty) for (int w = ty == 2 ? -1 : 0; w < (int) words.size(); ++w) for (int n = 0; n < 3; ++n) all.push_back(spec{ nt, ty, w, n });
    long long idx = 0;
    test_case("none", idx++, {}, 0);
    for (int l = 0; l < 4; ++l) for (int lay = 0; lay < 3; ++lay) { test_case("none", idx++, { block_t{ l, {} } }, lay); for (int k = 0; k < 4; ++k) test_case("none", idx++, { block_t{ l, {} }, block_t{ k, {} } }, lay); }
    idx = 0;
    for (auto& x : all) for (int l = 0; l < 4; ++l) for (int lay = 0; lay < 2; ++lay) test_case("one", idx++, { block_t{ l, { x } } }, lay);
    idx = 0;
    for (auto& x : all) for (auto& y : all) {
        if (x.name == 2 && y.name == 2 && (x.nt != y.nt || x.type != y.type)) continue;
        if (!th && (x.wordNo + 2 * y.wordNo + x.nt + y.type + 3 * y.name + 40) % 5) continue;
        for (int lay = 0; lay < 3; ++lay) {
            if (!th && lay != idx % 3) { ++idx; continue; }
            test_case("two", idx++, { block_t{ 0, { x, y } } }, lay);
        }
    }
    idx = 0;
    for (auto& x : all) for (auto& y : all) {
        if (x.name || y.name) continue;
        if (!th && (x.wordNo + y.wordNo + x.type) % 3) continue;
        int l = (int) (idx % 16);
        test_case("blocks", idx++, { block_t{ l / 4, { x } }, block_t{ l % 4, { y, x } } }, (int) (idx % 3));
    }
    idx = 0;
    for (auto& x : all) for (auto& y : all) for (auto& z : all) {
        if (x.name || y.name || z.name || x.nt == 2 || z.nt == 2) continue;
        if (!th && ((x.wordNo * 7 + y.wordNo * 3 + z.wordNo + y.nt + x.type * 5 + 60) % 23)) continue;
        test_case("three", idx++, { block_t{ (int) (idx & 1), { x, y, z } } }, (int) (idx % 3));
    }
}

// ======== Imports
struct ifile { std::vector<int> imports; int form; bool language; int base; int langName; };   // imports: file numbers, 9 is missing; form: how names are written; base: -1 or a language number

static std::string fname(int f, int form) { return f == 9 ? "missing.tp" : f == 0 ? "main.tp" : (form ? "./f" : "f") + std::to_string(f) + ".tp"; }

static void import_case(const char* section, long long idx, const std::vector<ifile>& fs, bool after) {
    if (!begin_case(section, idx)) return;
    compilation c;
    std::string desc;
    std::map<int, std::vector<where>> defined;          // Places of language blocks by name, by file
    std::map<int, std::vector<int>> definedIn;
    for (size_t i = 0; i < fs.size(); ++i) {
        std::string t; int line = 0;
        std::string imp; for (int k : fs[i].imports) imp += "import \"" + fname(k, fs[i].form) + "\"\n";
        if (!after) { t += imp; line += (int) fs[i].imports.size(); }
        if (fs[i].language) {
            std::string n = "L" + std::to_string(fs[i].langName);
            t += "language " + n + (fs[i].base < 0 ? "" : " : L" + std::to_string(fs[i].base)) + " { grammar { <S> |= '" + std::string(1, (char) ('0' + i)) + "' } }\n";
            defined[fs[i].langName].push_back(where{ "", line, 0 }); definedIn[fs[i].langName].push_back((int) i);
        }
        if (after) t += imp;
        c.sh.files[wide(fname((int) i, 0))] = t;
        if (i) { c.sh.files[wide(fname((int) i, 1))] = t; c.sh.real[wide(fname((int) i, 0))] = wide("/real/f" + std::to_string(i)); c.sh.real[wide(fname((int) i, 1))] = wide("/real/f" + std::to_string(i)); }
        desc += fname((int) i, 0) + ": "; for (char ch : t) desc += ch == '\n' ? ' ' : ch; 
    }
    c.sh.real[L"main.tp"] = L"/real/main.tp";
    describe(desc);
    // Files reached
    std::set<int> reached{ 0 }; bool missing = false; std::deque<int> q{ 0 };
    std::map<int, std::set<std::string>> shortNames; shortNames[0].insert("main.tp");
    while (!q.empty()) { int f = q.front(); q.pop_front(); for (int k : fs[f].imports) { if (k == 9) { missing = true; continue; } if (k) shortNames[k].insert(fname(k, fs[f].form)); if (reached.insert(k).second) q.push_back(k); } }
    // Languages
    std::map<int, std::vector<int>> langs; for (int f : reached) if (fs[f].language) langs[fs[f].langName].push_back(f);
    bool ambiguous = false; for (auto& l : langs) if (l.second.size() > 1) ambiguous = true;

    bool loaded = c.load("");
    ++res().states; res().transitions += reached.size(); ++res().traces;
    // Every file is read once
    std::map<std::string, int> opened; for (auto& o : c.sh.opened) ++opened[o == L"missing.tp" ? std::string("missing.tp") : narrow(c.con.real_path(o))];
    for (int f : reached) { int n = opened[f ? "/real/f" + std::to_string(f) : std::string("/real/main.tp")]; if (n != 1) { violation("opened " + desc, fname(f, 0) + " was read " + std::to_string(n) + " times"); return; } }
    for (size_t f = 1; f < fs.size(); ++f) if (!reached.count((int) f) && opened["/real/f" + std::to_string(f)]) { violation("opened " + desc, fname((int) f, 0) + " isn't imported but was read"); return; }
    if (missing) { bool ok = false; for (auto& e : c.sh.errors) if (e.id == L"CANT_OPEN_FILE" && e.file == L"missing.tp") ok = true; if (!ok || loaded) { violation("missing " + desc, "an import of a file that doesn't exist was accepted: " + c.errors_text()); return; } }
    if (ambiguous) {
        for (auto& l : langs) {
            std::set<std::pair<int,int>> reportedFiles; size_t errors = 0; bool badPlace = false;
            for (size_t i = 0; i < c.sh.errors.size(); ++i) {
                const err& e = c.sh.errors[i];
                if (e.id != L"AMBIGUOUS_LANGUAGE_DEFINITION" || e.desc.find(L"'L" + std::to_wstring(l.first) + L"'") == std::wstring::npos) continue;
                ++errors;
                if (i + 1 >= c.sh.errors.size() || c.sh.errors[i + 1].id != L"AMBIGUOUS_LANGUAGE_ORIGINAL") { badPlace = true; break; }
                const err* two[2] = { &e, &c.sh.errors[i + 1] }; int ids[2];
                for (int k = 0; k < 2; ++k) { ids[k] = -1; for (int f : l.second) { where w = defined[l.first][std::find(definedIn[l.first].begin(), definedIn[l.first].end(), f) - definedIn[l.first].begin()]; if (shortNames[f].count(narrow(two[k]->file)) && two[k]->line == w.line && two[k]->col == w.col) ids[k] = f; } }
                if (ids[0] < 0 || ids[1] < 0 || ids[0] == ids[1] || !reportedFiles.insert({ ids[0], 0 }).second) badPlace = true;
            }
            if (errors != l.second.size() - 1 || badPlace) { violation("ambiguous " + desc, "the definitions of L" + std::to_string(l.first) + " should be reported where they are: " + c.errors_text()); return; }
        }
        if (loaded) { violation("ambiguous " + desc, "accepted"); return; }
    }
    if (!missing && !ambiguous && !loaded) { violation("load " + desc, c.errors_text()); return; }
    if (!loaded) { count("mistaken"); ++res().nontrivial; return; }
    // Inheritance
    std::set<int> broken; std::set<int> loopOrMissing;
    auto chain = [&](int l, std::vector<int>& files) {      // false: missing base or a loop
        std::set<int> seen; 
        for (int k = l; k >= 0; ) { if (!langs.count(k) || !seen.insert(k).second) return false; files.push_back(langs[k][0]); k = fs[langs[k][0]].base; }
        return true;
    };
    bool anyBroken = false; for (auto& l : langs) { std::vector<int> f; if (!chain(l.first, f)) anyBroken = true; }
    bool built = c.build_languages();
    if (langs.empty()) { if (built || c.count(L"NO_LANGUAGES_DEFINED") != 1) violation("empty " + desc, c.errors_text()); return; }
    if (built == anyBroken) { violation("inherit " + desc, std::string(built ? "a base language is missing or circular, but nothing is reported" : "reported: ") + c.errors_text()); return; }
    if (anyBroken) {
        // Some error is at a language whose base is missing, or in a circle
        for (auto& l : langs) {
            int f = l.second[0]; int b = fs[f].base;
            if (b < 0 || langs.count(b)) continue;
            bool ok = false; where w = defined[l.first][std::find(definedIn[l.first].begin(), definedIn[l.first].end(), f) - definedIn[l.first].begin()];
            for (auto& e : c.sh.errors) if (e.id == L"CANT_FIND_LANGUAGE" && shortNames[f].count(narrow(e.file)) && e.line == w.line && e.col == w.col) ok = true;
            if (!ok) { violation("base " + desc, "the missing base of L" + std::to_string(l.first) + " isn't reported: " + c.errors_text()); return; }
        }
        // Nothing is reported elsewhere, and every language which inherits from itself or from a circle is reported as such
        typedef std::tuple<std::string, int, std::string> place;     // code, file, line and column
        auto spot = [&](int l) { int f = langs[l][0]; where w = defined[l][std::find(definedIn[l].begin(), definedIn[l].end(), f) - definedIn[l].begin()]; return std::to_string(w.line) + ":" + std::to_string(w.col); };
        std::set<place> wanted, got;
        for (auto& l : langs) {
            std::set<int> seen; int k = l.first; while (k >= 0 && langs.count(k) && seen.insert(k).second) k = fs[langs[k][0]].base;
            if (k >= 0 && langs.count(k)) wanted.insert(place("INHERITANCE_LOOP", l.second[0], spot(l.first)));
            int b = fs[l.second[0]].base; if (b >= 0 && !langs.count(b)) wanted.insert(place("CANT_FIND_LANGUAGE", l.second[0], spot(l.first)));
        }
        for (auto& e : c.sh.errors) { if (e.sev < compiler::error::sev_error) continue; int in = -1; for (auto& s : shortNames) if (s.second.count(narrow(e.file))) in = s.first; got.insert(place(narrow(e.id), in, std::to_string(e.line) + ":" + std::to_string(e.col))); }
        if (wanted != got) { violation("circle " + desc, "missing and circular bases should be reported at the languages that have them: " + c.errors_text()); return; }
        count("broken-inheritance"); ++res().nontrivial; return;
    }
    for (auto& l : langs) {
        std::wstring name = L"L" + std::to_wstring(l.first);
        if (!shortNames[l.second[0]].count(narrow(c.import->file_with_language(name)))) { violation("file " + desc, "L" + std::to_string(l.first) + " is said to be in " + narrow(c.import->file_with_language(name))); return; }
        if (!c.build_language(name) || !c.build_lexer(name) || !c.build_parser(name, { L"<S>" })) { violation("build " + desc, c.errors_text()); return; }
        std::vector<int> f; chain(l.first, f);
        for (size_t i = 0; i < fs.size(); ++i) {
            bool in = std::find(f.begin(), f.end(), (int) i) != f.end();
            ++res().traces;
            if (c.parse(std::wstring(1, (wchar_t) (L'0' + i))) != in) { violation("meaning " + desc, std::string("'") + (char) ('0' + i) + "' is " + (in ? "rejected" : "accepted") + " by L" + std::to_string(l.first)); return; }
        }
        c.ast.reset(); c.lr.reset(); c.lexer.reset();
    }
    if (c.sh.live) { violation("leak " + desc, "files left open"); return; }
    ++res().nontrivial;
    if (idx % 997 == 3) sample(desc);
}

static void imports_mode(bool th) {
    long long idx = 0;
    // Two and three files: every import relation, including on itself, every inheritance relation
    for (int n = 2; n <= 3; ++n) {
        idx = 0;
        int masks = 1 << n;
        int perFile = masks * (n + 2);               // imports, base (-1..n)
        long long total = 1; for (int i = 0; i < n; ++i) total *= perFile;
        for (long long k = 0; k < total; ++k) {
            long long q = k; std::vector<ifile> fs;
            for (int i = 0; i < n; ++i) {
                int v = (int) (q % perFile); q /= perFile;
                ifile f; f.form = (int) ((k / 7 + i) & 1); f.language = true; f.langName = i; f.base = v / masks - 1; if (f.base == n) f.base = 7;
                for (int j = 0; j < n; ++j) if (v % masks & (1 << j)) f.imports.push_back(j);
                fs.push_back(f);
            }
            if (n == 3 && !th && (k * 2654435761ULL >> 7) % 4) { ++idx; continue; }
            import_case(n == 2 ? "two" : "three", idx++, fs, (k / 3) & 1);
        }
    }
    // Missing files, repeated imports, files without languages, ambiguous definitions
    idx = 0;
    std::vector<std::vector<int>> lists = { {}, {1}, {2}, {1,2}, {2,1}, {9}, {1,9}, {9,1}, {1,1}, {1,2,1}, {0}, {2,9,1} };
    for (auto& a : lists) for (auto& b : lists) for (auto& d : lists) for (int names = 0; names < 27; ++names) {
        std::vector<ifile> fs; const std::vector<int>* l[] = { &a, &b, &d }; int q = names;
        for (int i = 0; i < 3; ++i) { ifile f; f.imports = *l[i]; f.form = (int) ((idx + i) & 1); f.langName = q % 3 == 2 ? 0 : q % 3; f.language = q % 3 != 2; f.base = -1; q /= 3; fs.push_back(f); }
        import_case("names", idx++, fs, names & 1);
    }
    // Longer chains and circles of imports and languages over four files
    idx = 0;
    for (int perm = 0; perm < 256; ++perm) for (int imp = 0; imp < 256; ++imp) {
        if (!th && (perm * 31 + imp * 17) % 5) { ++idx; continue; }
        std::vector<ifile> fs;
        for (int i = 0; i < 4; ++i) { ifile f; f.form = (perm + i) & 1; f.language = true; f.langName = i; int b = (perm >> (2 * i)) & 3; f.base = b == i ? -1 : b; int m = (imp >> (2 * i)) & 3; f.imports = { m }; if (i == 0) f.imports = { 1, m }; fs.push_back(f); }
        import_case("four", idx++, fs, imp & 1);
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        bool th = cfg().thorough;
        std::string mode = cfg().extra.empty() ? "tests" : cfg().extra[0];
        if (mode == "tests") tests_mode(th);
        if (mode == "endings") endings_mode();
        if (mode == "imports") imports_mode(th);
    });
}
