// C15: ignored symbols between the tokens of an input change nothing. Grammars with EBNF items and guards (grammars with one
// kind of plain items are covered by weak.cpp with the argument "ignored") are compiled from definition text; every token string
// is parsed without and with every placement of ignored text, and the trees are compared.
#include "cfg.h"
#include "compile.h"
using namespace vp; using namespace vp::cfg_model; using namespace comp;

static std::string def_item(const gitem& i);
static std::string def_rule(const grule& r) { std::string o; for (auto& i : r) o += def_item(i) + " "; return o; }
static std::string def_item(const gitem& i) {
    switch (i.kind) {
    case T: return t_name(i.sym);
    case N: return "<" + nt_name(i.sym) + ">";
    case OPT: return "(" + def_rule(i.rules[0]) + ")?";
    case REP: return "(" + def_rule(i.rules[0]) + ")+";
    case STAR: return "(" + def_rule(i.rules[0]) + ")*";
    case GUARD: return "[=> " + def_rule(i.rules[0]) + "]";
    case ALT: { std::string o = "("; for (size_t k = 0; k < i.rules.size(); ++k) o += (k ? "| " : "") + def_rule(i.rules[k]); return o + ")"; }
    }
    return "";
}
static std::string def_grammar(const ggram& g) {
    std::string o = "grammar { ";
    for (size_t i = 0; i < g.size(); ++i) { o += "<" + nt_name((int)i) + "> = "; for (size_t k = 0; k < g[i].size(); ++k) o += (k ? "| " : "") + def_rule(g[i][k]); o += " "; }
    return o + "}";
}

struct lex_t { std::string name, def; std::vector<std::string> fill; };

static void run(const char* section, long long idx, const ggram& g, const lex_t& lx, int maxLen) {
    if (!begin_case(section, idx)) return;
    std::string def = "language L { " + lx.def + " " + def_grammar(g) + " }";
    std::string desc = lx.name + " " + text(g) + " :: " + def;
    describe(desc);
    compilation c;
    if (!c.all(def, L"L", { L"<S>" })) { count("skipped-rejected"); return; }
    bool accepted = false;
    std::function<bool(const std::string&)> word = [&](const std::string& w) -> bool {
        std::string plain; bool ok = c.parse(wide(w), 0, &plain);
        if (ok) accepted = true;
        ++res().states;
        size_t gaps = w.size() + 1, total = 1;
        for (size_t i = 0; i < gaps; ++i) total *= lx.fill.size();
        for (size_t k = 1; k < total; ++k) {
            std::string in; size_t q = k;
            for (size_t i = 0; i < gaps; ++i) { in += lx.fill[q % lx.fill.size()]; q /= lx.fill.size(); if (i < w.size()) in += w[i]; }
            std::string tree; bool got = c.parse(wide(in), 0, &tree);
            ++res().traces; ++res().transitions;
            if (got != ok || tree != plain) { violation("ignored " + desc, "'" + w + "' is " + (ok ? "accepted" : "rejected") + " but '" + in + "' is " + (got ? ok ? "accepted with another tree " + tree + " instead of " + plain : "accepted" : "rejected")); return false; }
        }
        if ((int)w.size() < maxLen) for (const char* ch = "ab"; *ch; ++ch) if (!word(w + *ch)) return false;
        return true;
    };
    word("");
    if (accepted) ++res().nontrivial;
    if (idx % 97 == 5) sample(desc);
}

static std::vector<grule> bodies(const std::vector<gitem>& syms, int lo, int hi) {
    std::vector<grule> out(1), r; size_t from = 0;
    if (lo == 0) r.push_back(out[0]);
    for (int l = 1; l <= hi; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (auto& s : syms) { grule q = out[i]; q.push_back(s); out.push_back(q); if (l >= lo) r.push_back(q); } from = to; }
    return r;
}
static bool has_guard(const grule& r) { for (auto& i : r) { if (i.kind == GUARD) return true; for (auto& q : i.rules) if (has_guard(q)) return true; } return false; }

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        bool th = cfg().thorough;
        int len = th ? 4 : 3;
        case_seconds() = 60;
        gitem a = t(0), b = t(1), A = n(1), B = n(2);
        std::vector<lex_t> lex = {
            { "one", "lexer { a = 'a' b = 'b' } ignore { ws = / +/ }", { "", " ", "   " } },
            { "several", "ignore { nl = /\\n/ comment = /#x*/ } lexer { a = 'a' b = 'b' } ignore { ws = / / }", { "", "\n", " #xx" } },
            { "literals", "weak lexer { b = 'b' } weak keywords { a } lexer { id = /[a-z]/ } ignore { ws = / / comment = /#x*/ }", { "", " ", "#x " } },
        };
        std::vector<std::vector<grule>> as = { { {a}, {} }, { {a} }, { {a, A}, {b} }, { {A, a}, {a} }, { {a, A, b}, {} } };
        std::vector<gitem> guards = { grd({a, b}), grd({A, b}), grd({b, a}), grd({rep({a}), b}), grd({alt({{a, b}, {b}})}), grd({A}), grd({a, grd({b}), b, a}), grd({grd({a}), A, b}), grd({opt({a}), star({b}), a}) };
        for (auto& lx : lex) {
            long long idx = 0; std::string sec = "ebnf-" + lx.name;
            std::vector<gitem> items = { a, b, A, opt({a}), star({a, b}), rep({b}), alt({{a}, {b, b}}), star({A, b}), opt({b, A}) };
            auto bd = bodies(items, 1, 2), b3 = bodies(items, 3, 3);
            for (auto& x : bd) for (auto& ar : as) run(sec.c_str(), idx++, { {x}, ar }, lx, len);
            for (auto& x : b3) if (th || idx % 1 == 0) run(sec.c_str(), idx++, { {x}, as[idx % as.size()] }, lx, len);
            idx = 0; sec = "guards-" + lx.name;
            for (auto& gd : guards) {
                auto all = bodies({ a, b, A, gd }, 0, th ? 3 : 2); std::vector<grule> with; for (auto& x : all) if (has_guard(x)) with.push_back(x);
                for (auto& x : with) for (auto& y : all) if (text(x) != text(y)) { if (th) for (auto& ar : as) run(sec.c_str(), idx++, { {x, y}, ar }, lx, len); else run(sec.c_str(), idx++, { {x, y}, as[idx % as.size()] }, lx, len); }
                std::vector<gitem> pool = { a, b, A, star({gd, a}), opt({gd, a, b}), alt({{gd, A}, {b}}), star({gd, a, b}), alt({{gd, a}, {a, b}}), rep({gd, a, opt({b})}) };
                for (auto& x : bodies(pool, 1, 2)) if (has_guard(x)) run(sec.c_str(), idx++, { {x}, as[idx % as.size()] }, lx, len);
            }
            idx = 0; sec = "inner-" + lx.name;
            for (auto& gd : guards) for (auto& s : bodies({ a, b, B, A }, 1, 2)) for (auto& x : bodies({ a, A, gd }, 1, 2)) if (has_guard(x)) run(sec.c_str(), idx++, { {s}, as[idx % as.size()], { x, {b, b} } }, lx, len);
        }
    });
}
