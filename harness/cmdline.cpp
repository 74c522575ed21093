// C28: what the command line tool does is decided by its options and its input. Runs the real tool (parsetool's sources, with main
// renamed) in a child process for each command line, in a scratch directory, and compares its exit status, the files it writes, what
// it accepts from its standard input and what it reports with a model of the command line.
// tool: linked
#include "vp.h"
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <set>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace vp;

int tool_main(int argc, const char* argv[]);

typedef std::vector<std::string> args_t;
static std::string scratch;

static std::string slurp(const std::string& f) { std::string o; FILE* h = fopen(f.c_str(), "rb"); if (!h) return o; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, h)) > 0) o.append(b, n); fclose(h); return o; }
static void spit(const std::string& f, const std::string& t) { FILE* h = fopen(f.c_str(), "wb"); if (!h) abort(); fwrite(t.data(), 1, t.size(), h); fclose(h); }
// The files that are generated say when they were
static std::string undated(const std::string& t) { size_t p = t.find("generated by TameParse at "); if (p == std::string::npos) return t; size_t e = t.find('\n', p); return t.substr(0, p) + t.substr(e); }
// The files in a directory tree, with their contents
static void files_in(const std::string& dir, const std::string& rel, std::map<std::string, std::string>& out) {
    DIR* d = opendir((dir + "/" + rel).c_str()); if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string r = rel.empty() ? n : rel + "/" + n; struct stat st; if (lstat((dir + "/" + r).c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) files_in(dir, r, out); else out[r] = S_ISLNK(st.st_mode) ? "link" : undated(slurp(dir + "/" + r));
    }
    closedir(d);
}
static void clear(const std::string& dir) {
    DIR* d = opendir(dir.c_str()); if (!d) return;
    while (dirent* e = readdir(d)) {
        std::string n = e->d_name; if (n == "." || n == "..") continue;
        std::string p = dir + "/" + n; struct stat st; if (lstat(p.c_str(), &st)) continue;
        if (S_ISDIR(st.st_mode)) { clear(p); rmdir(p.c_str()); } else unlink(p.c_str());
    }
    closedir(d);
}

struct outcome { int status = -1; bool died = false; std::string out, err; std::map<std::string, std::string> files; };
// Runs the tool in the work directory
static outcome run_tool(const std::map<std::string, std::string>& files, const args_t& args, const std::string& input, const std::string& cwd = "") {
    std::string work = scratch + "/work", so = scratch + "/stdout", se = scratch + "/stderr", si = scratch + "/stdin";
    clear(work); mkdir(work.c_str(), 0700);
    for (auto& f : files) { size_t s = 0; while ((s = f.first.find('/', s)) != std::string::npos) { mkdir((work + "/" + f.first.substr(0, s)).c_str(), 0700); ++s; } if (f.first.back() != '/') spit(work + "/" + f.first, f.second); }
    spit(si, input);
    fflush(NULL);
    pid_t p = fork();
    if (p == 0) {
        struct itimerval none; memset(&none, 0, sizeof none); setitimer(ITIMER_PROF, &none, NULL);
        struct rlimit cpu = { 20, 20 }; setrlimit(RLIMIT_CPU, &cpu); struct rlimit core = { 0, 0 }; setrlimit(RLIMIT_CORE, &core);
        if (chdir((work + "/" + cwd).c_str())) _exit(77);
        int i = open(si.c_str(), O_RDONLY), o = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(i, 0); dup2(o, 1); dup2(e, 2);
        std::vector<const char*> argv; argv.push_back("tameparse"); for (auto& a : args) argv.push_back(a.c_str()); argv.push_back(NULL);
        exit(tool_main((int) argv.size() - 1, argv.data()));
    }
    int st = 0; waitpid(p, &st, 0);
    outcome r; r.died = !WIFEXITED(st); r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    r.out = slurp(so); r.err = slurp(se); files_in(work, "", r.files); for (auto& f : files) r.files.erase(f.first);
    ++res().traces; ++res().transitions;
    return r;
}
static std::string show_files(const std::map<std::string, std::string>& f) { std::string o; for (auto& x : f) o += " " + x.first; return o.empty() ? " none" : o; }
static std::string show(const args_t& a) { std::string o; for (auto& x : a) o += (o.empty() ? "" : " ") + x; return o; }
// The codes of the errors and failures in the messages, which have been asked for with --show-error-codes
static std::set<std::string> codes(const std::string& err, bool warnings) {
    std::set<std::string> r; std::stringstream s(err); std::string l;
    while (std::getline(s, l)) {
        bool e = l.find(" error: [") != std::string::npos || l.find(" failure: [") != std::string::npos, w = l.find(" warning: [") != std::string::npos;
        if (!e && !(warnings && w)) continue;
        size_t a = l.find('['), b = l.find(']', a); r.insert(l.substr(a + 1, b - a - 1));
    }
    return r;
}

// ---- Definitions and their model
struct lang { std::map<std::string, std::set<std::string>> words; };                       // The words of each nonterminal
struct defn {
    std::string name; std::map<std::string, std::string> files; std::map<std::string, lang> languages;
    std::string stop;                                                                      // Error that stops it while it is read ("" if none)
    std::vector<std::string> main;                                                         // Languages in the main file
    struct block { std::string name, language; args_t start; }; std::vector<block> blocks; // Parser blocks in the main file
    bool sr = false, rr = false, warns = false; int tests = 0;                             // Conflicts; tests: 0 none, 1 passing, 2 failing
};
static const char* L_TEXT = "language L { lexer { a = 'a' b = 'b' } grammar { <S> = a <T> = b <U> = a b } }\n";
static const char* M_TEXT = "language M { lexer { a = 'a' b = 'b' } grammar { <S> = b <T> = a a } }\n";
static lang L_LANG() { return { { { "<S>", { "a" } }, { "<T>", { "b" } }, { "<U>", { "ab" } } } }; }
static lang M_LANG() { return { { { "<S>", { "b" } }, { "<T>", { "aa" } } } }; }
static std::vector<defn> definitions() {
    std::vector<defn> r;
    auto add = [&](const char* n, std::map<std::string, std::string> f, std::map<std::string, lang> l, std::vector<std::string> main) -> defn& { defn d; d.name = n; d.files = f; d.languages = l; d.main = main; r.push_back(d); return r.back(); };
    std::string L = L_TEXT, M = M_TEXT, P = "parser P : L { <S> }\n";
    add("one", { { "main.tp", L } }, { { "L", L_LANG() } }, { "L" });
    add("one-block", { { "main.tp", L + P } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "P", "L", { "<S>" } } };
    add("two", { { "main.tp", L + M } }, { { "L", L_LANG() }, { "M", M_LANG() } }, { "L", "M" });
    add("two-block", { { "main.tp", L + M + "parser Q : M { <T> }\n" } }, { { "L", L_LANG() }, { "M", M_LANG() } }, { "L", "M" }).blocks = { { "Q", "M", { "<T>" } } };
    add("two-blocks", { { "main.tp", P + L + "parser Q : M { <T> }\n" + M } }, { { "L", L_LANG() }, { "M", M_LANG() } }, { "L", "M" }).blocks = { { "P", "L", { "<S>" } }, { "Q", "M", { "<T>" } } };
    add("one-two-blocks", { { "main.tp", P + L + "parser Q : L { <T> }\n" } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "P", "L", { "<S>" } }, { "Q", "L", { "<T>" } } };
    add("starts", { { "main.tp", L + "parser Q : L { <T> <S> }\n" } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "Q", "L", { "<T>", "<S>" } } };
    add("unknown-language", { { "main.tp", L + "parser Q : N { <S> }\n" } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "Q", "N", { "<S>" } } };
    add("unknown-start", { { "main.tp", L + "parser Q : L { <S> <V> }\n" } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "Q", "L", { "<S>", "<V>" } } };
    add("none", { { "main.tp", "" } }, {}, {}).stop = "NO_LANGUAGES_DEFINED";
    add("syntax", { { "main.tp", L + "language {" } }, {}, {}).stop = "SYNTAX_ERROR";
    add("missing", { { "other.tp", L } }, {}, {}).stop = "CANT_OPEN_FILE";
    add("missing-import", { { "main.tp", L + "import \"x.tp\"\n" } }, {}, {}).stop = "CANT_OPEN_FILE";
    add("import", { { "main.tp", "import \"b.tp\"\n" + L + P }, { "b.tp", M + "parser Q : M { <T> }\n" } }, { { "L", L_LANG() }, { "M", M_LANG() } }, { "L" }).blocks = { { "P", "L", { "<S>" } } };
    add("import-block", { { "main.tp", "import \"b.tp\"\nparser Q : M { <T> }\n" }, { "b.tp", M } }, { { "M", M_LANG() } }, {}).blocks = { { "Q", "M", { "<T>" } } };
    add("inherit", { { "main.tp", "import \"b.tp\"\nlanguage L : M { grammar { replace <S> = a <U> = a b } }\nparser P : L { <U> <T> }\n" }, { "b.tp", M } }, { { "L", { { { "<S>", { "a" } }, { "<T>", { "aa" } }, { "<U>", { "ab" } } } } }, { "M", M_LANG() } }, { "L" }).blocks = { { "P", "L", { "<U>", "<T>" } } };
    add("warnings", { { "main.tp", "language L { lexer { a = 'a' b = 'b' c = 'c' } grammar { <S> = a <T> = b <U> = a b } }\n" + P } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "P", "L", { "<S>" } } };
    r.back().warns = true;
    add("bad", { { "main.tp", "language L { lexer { a = 'a' } grammar { <S> = <N> } }\n" + P } }, {}, {}).stop = "UNDEFINED_NONTERMINAL";
    add("shift-reduce", { { "main.tp", "language L { lexer { a = 'a' b = 'b' } grammar { <S> = (a)? a <T> = b <U> = a b } }\n" + P } }, { { "L", { { { "<S>", { "aa" } }, { "<T>", { "b" } }, { "<U>", { "ab" } } } } } }, { "L" }).blocks = { { "P", "L", { "<S>" } } };
    r.back().sr = true;
    add("reduce-reduce", { { "main.tp", "language L { lexer { a = 'a' b = 'b' } grammar { <S> = <A> | <B> <A> = a <B> = a <T> = b <U> = a b } }\n" + P } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "P", "L", { "<S>" } } };
    r.back().rr = true;
    add("tests", { { "main.tp", L + P + "test L { <S> = s(\"a\") <T> != t(\"a\") }\n" } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "P", "L", { "<S>" } } };
    r.back().tests = 1;
    add("failing-tests", { { "main.tp", L + P + "test L { <S> = s(\"a\") <S> = t(\"b\") }\n" } }, { { "L", L_LANG() } }, { "L" }).blocks = { { "P", "L", { "<S>" } } };
    r.back().tests = 2;
    return r;
}

// A command line
struct command {
    std::string language, target, output, cls, ns; args_t start; bool test = false, runTests = false, noConflicts = false, allowReduce = false; args_t extra; int form = 0;
    args_t args() const {
        args_t a; auto opt = [&](const char* l, const char* s, const std::string& v) { switch (form) { case 0: a.push_back(std::string("--") + l); a.push_back(v); break; case 1: a.push_back(std::string("--") + l + "=" + v); break; case 2: a.push_back(s); a.push_back(v); break; case 3: a.push_back(s + v); break; } };
        bool positional = form == 0 || form == 3; if (positional) a.push_back("main.tp"); else opt("input-file", "-i", "main.tp");
        if (!output.empty()) { if (form == 3) a.push_back(output); else opt("output-file", "-o", output); }
        if (!language.empty()) opt("compile-language", "-L", language);
        for (auto& s : start) opt("start-symbol", "-S", s);
        if (!target.empty()) opt("output-language", "-T", target);
        if (!cls.empty()) opt("class-name", "-C", cls);
        if (!ns.empty()) opt("namespace-name", "-N", ns);
        if (test) a.push_back("--test");
        if (runTests) a.push_back("--run-tests");
        if (noConflicts) a.push_back("--no-conflicts");
        if (allowReduce) a.push_back("--allow-reduce-conflicts");
        for (auto& e : extra) a.push_back(e);
        return a;
    }
};
struct expected { bool ok = true; std::set<std::string> errors; bool reads = false, writes = false; std::string language, start, cls; };
static expected model(const defn& d, const command& c) {
    expected r; auto fail = [&](const char* e) { r.ok = false; r.errors.insert(e); return r; };
    bool showParser = false; for (auto& e : c.extra) if (e == "--show-parser") showParser = true;
    if (d.stop == "SYNTAX_ERROR" || d.stop == "CANT_OPEN_FILE") return fail(d.stop.c_str());
    if (c.runTests) {
        if (d.tests == 0) return fail("NO_TEST_BLOCKS");
        if (d.tests == 2) { fail("TESTS_FAILED"); return fail("THIS_TEST_FAILED"); }
        if (c.output.empty() && c.start.empty() && c.target.empty() && !c.test && !showParser) return r;
    }
    if (!d.stop.empty()) return fail(d.stop.c_str());
    std::string language = c.language, cls = c.cls; args_t start = c.start;
    if (language.empty() && start.empty() && d.blocks.size() == 1) { language = d.blocks[0].language; start = d.blocks[0].start; if (cls.empty()) cls = d.blocks[0].name; }
    if (language.empty() && d.main.size() == 1) language = d.main[0];
    if (language.empty()) return fail("NO_LANGUAGE_SPECIFIED");
    if (cls.empty()) cls = language;
    auto l = d.languages.find(language); if (l == d.languages.end()) return fail("MISSING_TARGET_LANGUAGE");
    if (start.empty()) return fail("NO_START_SYMBOLS");
    bool any = false, conflicted = false;
    for (auto& s : start) { if (l->second.words.count(s)) { any = true; if (s == "<S>") conflicted = true; } else fail("UNDEFINED_NONTERMINAL"); }
    if (!any) return fail("NO_START_SYMBOLS");
    if (conflicted && d.sr && c.noConflicts) fail("CONFLICT_SHIFT_REDUCE");
    if (conflicted && d.rr && (c.noConflicts || !c.allowReduce)) fail("CONFLICT_REDUCE_REDUCE");
    if (!r.ok) return r;
    std::string target = c.test ? "test" : c.target.empty() ? "cplusplus" : c.target;
    r.language = language; r.start = start[0]; r.cls = cls;
    if (target == "test" || target == "test-trace") r.reads = true;
    else if (target == "cplusplus") { r.writes = true; if (c.output.find("nowhere/") == 0) { r.writes = false; return fail("CANT_WRITE_FILE"); } }
    else return fail("UNKNOWN_OUTPUT_LANGUAGE_TYPE");
    return r;
}
static std::string first_lines(const std::string& s) { std::string o = s.substr(0, 400); for (char& c : o) if (c == '\n') c = '/'; return o; }

// Compares one run with the model
static bool judge(const defn& d, const command& c, const std::string& input, const std::string& desc) {
    expected e = model(d, c); command k = c; k.extra.push_back("--show-error-codes");
    outcome o = run_tool(d.files, k.args(), input); ++res().evaluations;
    auto bad = [&](const std::string& kind, const std::string& det) { violation(kind + " " + desc, det + " :: exit " + std::to_string(o.status) + ", files:" + show_files(o.files) + ", messages: " + first_lines(o.err)); return false; };
    if (o.died) return bad("died", "the tool was ended by signal " + std::to_string(o.status - 1000));
    bool accepted = true;
    if (e.ok && e.reads) { accepted = d.languages.at(e.language).words.at(e.start).count(input) > 0; if (!accepted) e.errors.insert("TEST_PARSER_ERROR"); }
    bool ok = e.ok && accepted;
    if ((o.status == 0) != ok) return bad("status", std::string("expected ") + (ok ? "success" : "a failure"));
    std::set<std::string> got = codes(o.err, false);
    if (got != e.errors) { std::string x; for (auto& w : e.errors) x += " " + w; return bad("errors", "expected" + (x.empty() ? " none" : x)); }
    std::string prefix = c.output.empty() ? "main.tp" : c.output.compare(0, 2, "./") == 0 ? c.output.substr(2) : c.output; std::map<std::string, std::string> f = o.files;
    if (ok && e.writes) {
        if (f.size() != 2 || !f.count(prefix + ".h") || !f.count(prefix + ".cpp")) return bad("files", "expected " + prefix + ".h and " + prefix + ".cpp");
        if (f[prefix + ".h"].find("class yy_" + e.cls + " ") == std::string::npos && f[prefix + ".h"].find("class " + e.cls + " ") == std::string::npos) return bad("class", "no class " + e.cls + " in the header");
        if (!c.ns.empty() && f[prefix + ".h"].find("namespace yy_" + c.ns) == std::string::npos && f[prefix + ".h"].find("namespace " + c.ns) == std::string::npos) return bad("namespace", "no namespace " + c.ns + " in the header");
    } else if (!f.empty()) return bad("files", "expected no files");
    return true;
}

static const std::vector<std::string>& inputs() { static std::vector<std::string> i = { "", "a", "b", "aa", "ab", "ba", "abb" }; return i; }
static const char* display[] = { "--silent", "--verbose", "--suppress-warnings", "--show-error-codes", "--show-conflict-details", "--show-parser", "--show-parser-closure", "--show-propagation", "--disable-compact-dfa", "--disable-merged-dfa", "--enable-lr1-resolver" };
// Messages without the codes (and details of conflicts, which can be asked for)
static std::vector<std::string> messages(const std::string& err, bool suppress) {
    std::vector<std::string> r; std::stringstream s(err); std::string l; bool warned = false;
    while (std::getline(s, l)) {
        size_t a = l.find(": ["), b = a == std::string::npos ? a : l.find("] ", a);
        bool detail = l.find(":     ") != std::string::npos, w = l.find(" warning:") != std::string::npos;
        if (!detail) warned = w;
        if (detail) continue;
        if (suppress && w) continue;
        r.push_back(l);
    }
    return r;
}
static std::string without_code(const std::string& l) {
    // file:line:col: severity: [CODE] text
    size_t a = l.find(" ["), b = l.find("] ", a); if (a == std::string::npos || b == std::string::npos) return l;
    std::string code = l.substr(a + 2, b - a - 2); for (char c : code) if (!((c >= 'A' && c <= 'Z') || c == '_')) return l;
    return l.substr(0, a) + l.substr(b + 1);
}
static std::string join(const std::vector<std::string>& v) { std::string o; for (auto& x : v) o += x + " / "; return o; }

static void cases(const std::string& what, bool th) {
    auto ds = definitions(); long long idx = 0;
    if (what == "choose") {
        // Which language is compiled, from which symbols, to what
        const args_t langs = { "", "L", "M", "N" }; const std::vector<args_t> starts = { {}, { "<S>" }, { "<T>" }, { "<T>", "<S>" }, { "<V>" }, { "<S>", "<V>" } };
        const args_t targets = { "", "cplusplus", "test", "test-trace", "nope", "--test" }; const args_t outs = { "", "out" };
        for (auto& d : ds) for (auto& l : langs) for (auto& s : starts) for (auto& t : targets) for (int rt = 0; rt < 2; ++rt) for (auto& o : outs) {
            command c; c.language = l; c.start = s; c.output = o; c.runTests = rt; if (t == "--test") c.test = true; else c.target = t;
            c.form = (int) (idx % 4);
            std::string desc = d.name + ": " + show(c.args());
            ++idx; if (!begin_case("choose", idx, desc)) continue;
            ++res().states; bool reads = model(d, c).reads; if (model(d, c).ok) ++res().nontrivial;
            if (idx % 997 == 3) sample(desc);
            if (reads) { for (auto& i : inputs()) { std::string di = desc + " < " + i; describe(di); if (!judge(d, c, i, di)) break; } }
            else judge(d, c, "a", desc);
        }
        // Names of files, classes and name spaces, in all forms of the options
        idx = 0; const args_t outs2 = { "", "out", "sub/out", "nowhere/out", "./x.y" }, classes = { "", "K", "my_class" }, spaces = { "", "ns" };
        for (auto& d : ds) for (auto& o : outs2) for (auto& k : classes) for (auto& n : spaces) for (int form = 0; form < 4; ++form) for (int sel = 0; sel < 2; ++sel) {
            command c; c.output = o; c.cls = k; c.ns = n; c.form = form; if (sel) { c.language = "L"; c.start = { "<U>" }; }
            if (form == 3 && o == "" ) continue;
            std::string desc = d.name + ": " + show(c.args()); ++idx; if (!th && sel && (form + idx / 4) % 4) continue; if (!begin_case("names", idx, desc)) continue;
            ++res().states; if (model(d, c).ok) ++res().nontrivial;
            defn e = d; e.files["sub/"] = ""; judge(e, c, "", desc);
        }
        // Conflicts
        idx = 0;
        for (auto& d : ds) for (int nc = 0; nc < 2; ++nc) for (int ar = 0; ar < 2; ++ar) for (auto& s : starts) for (auto& t : targets) for (int lr1 = 0; lr1 < 2; ++lr1) {
            command c; c.start = s; c.noConflicts = nc; c.allowReduce = ar; if (!s.empty()) c.language = "L"; if (t == "--test") c.test = true; else c.target = t; if (lr1) c.extra.push_back("--enable-lr1-resolver");
            std::string desc = d.name + ": " + show(c.args()); ++idx; if (!begin_case("conflicts", idx, desc)) continue;
            ++res().states; bool reads = model(d, c).reads; if (model(d, c).ok) ++res().nontrivial;
            if (reads) { for (auto& i : inputs()) { std::string di = desc + " < " + i; describe(di); if (!judge(d, c, i, di)) break; } }
            else judge(d, c, "a", desc);
        }
    }
    if (what == "display") {
        // What is shown changes nothing of what is done
        const int n = sizeof display / sizeof *display; const args_t targets = { "", "test" };
        for (size_t k = 0; k < ds.size(); ++k) for (auto& t : targets) for (int rt = 0; rt < 2; ++rt) {
            command c; c.target = t; c.output = "out"; c.runTests = rt;
            outcome base; bool have = false;
            for (int m = 0; m < 1 << n; ++m) {
                ++idx; int bits = __builtin_popcount(m); if (!th && bits > 3 && bits < n - 1) continue;
                command x = c; for (int b = 0; b < n; ++b) if (m >> b & 1) x.extra.push_back(display[b]);
                std::string desc = ds[k].name + ": " + show(x.args()); if (!begin_case("display", idx, desc)) continue;
                ++res().states; if (model(ds[k], x).ok) ++res().nontrivial;
                if (!have) { base = run_tool(ds[k].files, c.args(), "a"); have = true; }
                outcome o = run_tool(ds[k].files, x.args(), "a"); ++res().evaluations;
                auto bad = [&](const std::string& kind, const std::string& det) { violation(kind + " " + desc, det + " :: exit " + std::to_string(o.status) + " (" + std::to_string(base.status) + " without the options), files:" + show_files(o.files) + ", messages: " + first_lines(o.err)); };
                bool silent = m & 1, verbose = m & 2, suppress = m & 4, code = m & 8, shows = m & (32 | 64 | 128), dfa = m & (256 | 512);
                if (o.died || o.status != base.status) { bad("status", "the exit status is different"); continue; }
                if (!dfa && o.files != base.files) { bad("files", "the files are different"); continue; }
                if (dfa) { bool same = o.files.size() == base.files.size(); for (auto& f : o.files) if (!base.files.count(f.first)) same = false; if (!same) { bad("files", "the files are different"); continue; } }
                if (silent && !verbose && !shows && !o.out.empty()) { bad("silent", "silent, but wrote " + first_lines(o.out)); continue; }
                std::vector<std::string> want = messages(base.err, suppress), got = messages(o.err, false), got2;
                for (auto& g : got) got2.push_back(code ? without_code(g) : g);
                if (code) { bool all = true; for (auto& g : got) if (without_code(g) == g) all = false; if (!all) { bad("codes", "a message without its code"); continue; } }
                if (want != got2) { bad("messages", "expected " + join(want) + "but got " + join(got2)); continue; }
                if (idx % 4999 == 3) sample(desc);
            }
        }
    }
    if (what == "places") {
        // Input files and imports in other directories, by several names
        idx = 0;
        std::string L = "language L : M { grammar { <U> = a b } }\nparser P : L { <U> }\n", M = M_TEXT;
        const args_t dirs = { "", "d/", "d/e/" }, cwds = { "", "d", "x" };
        // How the main file names the other one, and how that one names the main file (if it does)
        const args_t names = { "b.tp", "./b.tp", "e/../b.tp", "../d/b.tp", "%/b.tp" }, backs = { "", "main.tp", "./main.tp", "../d/main.tp", "%/main.tp", "b.tp", "./b.tp" };
        for (int abs = 0; abs < 2; ++abs) for (auto& cwd : cwds) for (auto& n1 : names) for (auto& n2 : names) for (auto& back : backs) {
            std::string desc = "in " + (cwd.empty() ? std::string(".") : cwd) + (abs ? " by its full name" : "") + ": main.tp imports " + n1 + " and " + n2 + (back.empty() ? "" : ", which imports " + back);
            ++idx; if (!begin_case("places", idx, desc)) continue;
            ++res().states; ++res().evaluations; ++res().nontrivial;
            std::string full = scratch + "/work/d";
            auto put = [&](std::string s) { size_t p = s.find('%'); if (p != std::string::npos) s.replace(p, 1, full); return s; };
            std::map<std::string, std::string> files; files["d/e/"] = ""; files["x/"] = "";
            files["d/main.tp"] = "import \"" + put(n1) + "\"\nimport \"" + put(n2) + "\"\n" + L;
            files["d/b.tp"] = (back.empty() ? "" : "import \"" + put(back) + "\"\n") + M;
            std::string in = abs ? full + "/main.tp" : cwd == "d" ? "main.tp" : cwd == "x" ? "../d/main.tp" : "d/main.tp";
            outcome o = run_tool(files, { in, "--test", "--show-error-codes" }, "ab", cwd);
            if (o.status != 0) violation("import " + desc, "exit " + std::to_string(o.status) + ": " + first_lines(o.err));
        }
        // The include path: the same name can be that of a different file in each of several directories
        idx = 0;
        const args_t where = { "", "d/", "p/", "q/" }, words = { "aa", "bb", "ab", "ba" };                     // Current directory, next to the input, include directories
        const std::vector<args_t> paths = { {}, { "p" }, { "q" }, { "p", "q" }, { "q", "p" }, { "%/p" }, { "none", "q" }, { "p/../q" }, { "p", "p" } };
        const args_t imports = { "inc.tp", "./inc.tp", "s/inc.tp", "%/p/inc.tp", "%/none/inc.tp" };
        for (int nested = 0; nested < 2; ++nested) for (auto& path : paths) for (auto& imp : imports) for (int twice = 0; twice < 2; ++twice) for (int have = 0; have < 16; ++have) {
            std::string desc = std::string("file present in"); for (int w = 0; w < 4; ++w) if (have >> w & 1) desc += " " + (where[w].empty() ? std::string("./") : where[w]);
            desc += ", include path"; for (auto& p : path) desc += " " + p; desc += ": " + std::string(nested ? "b.tp, imported by main.tp," : "main.tp") + " imports " + imp + (twice ? " twice" : "");
            ++idx; if (!begin_case("include", idx, desc)) continue;
            ++res().states; ++res().nontrivial;
            std::string full = scratch + "/work"; auto put = [&](std::string s) { size_t p = s.find('%'); if (p != std::string::npos) s.replace(p, 1, full); return s; };
            bool sub = imp.find("s/") == 0;
            std::map<std::string, std::string> files; for (auto& w : where) if (!w.empty()) files[w] = "", files[w + "s/"] = ""; files["s/"] = "";
            for (int w = 0; w < 4; ++w) if (have >> w & 1) files[where[w] + (sub ? "s/inc.tp" : "inc.tp")] = std::string("language M { lexer { a = 'a' b = 'b' } grammar { <T> = ") + words[w][0] + " " + words[w][1] + " } }\n";
            std::string imps = "import \"" + put(imp) + "\"\n"; if (twice) imps += imp.find("./") == 0 ? "import \"inc.tp\"\n" : imp[0] == '%' || sub ? imps : "import \"./inc.tp\"\n";
            std::string L = "language L { lexer { a = 'a' } grammar { <S> = a } }\n";
            files["d/main.tp"] = nested ? "import \"b.tp\"\n" + L : imps + L; if (nested) files["d/b.tp"] = imps;
            args_t args = { "d/main.tp", "--test", "--show-error-codes", "-L", "M", "-S", "<T>" }; for (auto& p : path) { args.push_back("-I"); args.push_back(put(p)); }
            // The first place that has it
            int found = -1; if (imp == "%/p/inc.tp") { if (have & 4) found = 2; } else if (imp[0] != '%') {
                if (have & 1) found = 0; else if (have & 2) found = 1;
                else for (auto& p : path) { int w = p == "p" || p == "%/p" ? 2 : p == "none" ? -1 : 3; if (w >= 0 && (have >> w & 1)) { found = w; break; } }
            }
            for (int w = 0; w < 4; ++w) {
                outcome o = run_tool(files, args, words[w]); ++res().evaluations;
                std::set<std::string> want; if (found < 0) want.insert("CANT_OPEN_FILE"); else if (found != w) want.insert("TEST_PARSER_ERROR");
                if (codes(o.err, false) != want || (o.status == 0) != want.empty()) { violation("include " + desc, (found < 0 ? std::string("no file should be found") : "expected the file in " + (where[found].empty() ? std::string("./") : where[found])) + ", input " + words[w] + " :: exit " + std::to_string(o.status) + ": " + first_lines(o.err)); break; }
                if (found < 0) break;
            }
            if (idx % 499 == 3) sample(desc);
        }
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        const char* s = getenv("VP_SCRATCH"); char t[256]; snprintf(t, sizeof t, "%s/tool-XXXXXX", s ? s : "/tmp"); if (!mkdtemp(t)) abort(); scratch = t;
        std::string what = cfg().extra.empty() ? "choose" : cfg().extra[0];
        cases(what, cfg().thorough);
        clear(scratch); rmdir(scratch.c_str());
    });
}
