// C13: guards. All grammars of bounded families with guards, all inputs up to a length: the real parser against a reference machine
// in which guards are symbols of their own that are available exactly when the rest of the input begins with a sentence of the guard.
#include <memory>
#include "cfg.h"
#include "tables.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/ast_parser.h"
#include "TameParse/Lr/weak_symbols.h"
using namespace vp; using namespace vp::cfg_model; using namespace contextfree; using namespace lr;

static int NT = 2; static std::string mode;

// The grammar with guards turned into pseudo terminals NT.. and their rules into extra nonterminals at the end
struct model {
    ggram g2; std::vector<std::string> guards; std::vector<grule> guardRules;
    int find(const gitem& i) {
        std::string nm = text(i);
        for (size_t k = 0; k < guards.size(); ++k) if (guards[k] == nm) return (int)k;
        int k = (int)guards.size(); guards.push_back(nm); guardRules.emplace_back();
        grule r = conv(i.rules[0]); guardRules[k] = r; return k;
    }
    gitem conv(const gitem& i) { if (i.kind == GUARD) return t(NT + find(i)); gitem o = i; for (auto& r : o.rules) r = conv(r); return o; }
    grule conv(const grule& r) { grule o; for (auto& i : r) o.push_back(conv(i)); return o; }
    std::unique_ptr<bnf> b; std::unique_ptr<lalr> l; std::vector<int> guardProd; std::vector<unsigned> initial; bool usable = true;
    std::vector<std::map<int, lalr::entry>> acts;
    model(const ggram& g) {
        for (auto& rs : g) { std::vector<grule> o; for (auto& r : rs) o.push_back(conv(r)); g2.push_back(o); }
        size_t base = g2.size();
        for (auto& r : guardRules) g2.push_back({ r });
        b.reset(new bnf(g2, NT + (int)guards.size()));
        b->analyse();
        std::vector<std::pair<int,int>> starts;
        for (size_t k = 0; k < guards.size(); ++k) {
            int nt = (int)(base + k);
            if (b->nullable[nt] || !b->productive[nt]) usable = false;
            guardProd.push_back(b->byLhs[nt][0]);
            starts.push_back(std::make_pair(b->byLhs[nt][0], b->terminals + 1));
        }
        if (!usable) return;
        // Terminals a guard can begin with: also through guards at its beginning
        for (size_t k = 0; k < guards.size(); ++k) initial.push_back(b->first[base + k]);
        for (size_t n = 0; n < guards.size(); ++n) for (size_t k = 0; k < guards.size(); ++k) for (size_t j = 0; j < guards.size(); ++j) if (initial[k] >> (NT + j) & 1) initial[k] |= initial[j];
        l.reset(new lalr(*b, false, 4000, starts));
        for (size_t s = 0; s < l->kernels.size(); ++s) acts.push_back(l->actions((int)s, 1));
        // A guard's own rule is accepted, not reduced
        for (auto& a : acts) for (auto& e : a) for (int p : guardProd) if (e.second.reduce.count(p)) { e.second.reduce.erase(p); e.second.accept = true; }
    }
    bool conflicts() const {
        for (auto& a : acts) for (auto& e : a) {
            int n = (int)e.second.shift + (int)e.second.reduce.size() + (e.first == b->terminals ? (int)e.second.accept : 0);
            if (n > 1) return true;
        }
        return false;
    }
    const lalr::entry* at(int st, int sym) const { auto f = acts[st].find(sym); return f == acts[st].end() ? nullptr : &f->second; }
    bool clash;
    // Performs reductions on 'sym' until it can be shifted or accepted: 0 no, 1 shift, 2 accept
    int settle(std::vector<int>& st, int sym) const {
        for (int n = 0; n < 1000; ++n) {
            const lalr::entry* e = at(st.back(), sym);
            if (!e) return 0;
            if (e->shift) return 1;
            if (e->reduce.empty()) return e->accept ? 2 : 0;
            reduce(st, *e->reduce.begin());
        }
        return 0;
    }
    void reduce(std::vector<int>& st, int p) const { st.resize(st.size() - b->prods[p].rhs.size()); st.push_back(l->trans[st.back()].at(b->prods[p].lhs)); }
    // Guard >= 0: true if some prefix of the input from pos is a sentence of the guard. Otherwise true if the input is accepted; errorAt is where it stopped
    bool run(const std::vector<int>& in, size_t pos, int guard, size_t* errorAt, int depth = 0) {
        std::vector<int> st(1, guard >= 0 ? l->startStates[guard] : 0);
        if (depth > 20) { clash = true; return false; }
        for (int idle = 0;; ++idle) {
            // Repetitions of something that's empty apart from its guard don't end: not judged
            if (idle > 300) { clash = true; return false; }
            if (guard >= 0) { std::vector<int> c = st; if (settle(c, b->terminals + 1) == 2) return true; }
            if (errorAt) *errorAt = pos;
            int tok = pos < in.size() ? in[pos] : b->terminals;
            bool moved = false;
            std::vector<std::vector<int>> options;
            if (pos < in.size()) for (size_t k = 0; k < guards.size(); ++k) {
                if (!at(st.back(), NT + (int)k) || !(initial[k] >> tok & 1)) continue;
                if (!run(in, pos, (int)k, nullptr, depth + 1)) continue;
                std::vector<int> c = st;
                if (settle(c, NT + (int)k) != 1) continue;
                c.push_back(l->trans[c.back()].at(NT + (int)k));
                options.push_back(c);
            }
            if (options.size() > 1) clash = true;
            if (!options.empty()) { st = options[0]; continue; }
            const lalr::entry* e = at(st.back(), tok);
            if (!e) return false;
            if (e->shift) { st.push_back(l->trans[st.back()].at(tok)); ++pos; idle = 0; }
            else if (!e->reduce.empty()) reduce(st, *e->reduce.begin());
            else return e->accept && guard < 0;
        }
    }
};

// What a strong symbol k below 'half' stands for: itself or its weak symbol k + half. Turns it into a nonterminal with these two rules
static gitem either(const gitem& i, int half, int base, std::map<std::string, std::string>& names) {
    if (i.kind == T) return i.sym < half ? n(base + i.sym) : i;
    gitem o = i; for (auto& r : o.rules) for (auto& q : r) q = either(q, half, base, names);
    if (i.kind == GUARD) names[text(i)] = text(o);
    return o;
}

static void check(const char* section, long long idx, const ggram& g, const strings& S) {
    NT = S.terms;
    // With keyword guards, only guards use the weak symbols
    bool keywords = mode == "keywords"; int half = keywords ? NT / 2 : NT;
    if (keywords && !strcmp(section, "three")) return;
    if (mode == "copies" && strcmp(section, "ebnf")) return;
    if ((mode == "exact" || mode == "weak") && strcmp(section, "inner") && strcmp(section, "three") && strcmp(section, "nested") && strcmp(section, "ebnf")) return;
    if (!begin_case(section, idx)) return;
    std::string desc = text(g);
    describe(desc);
    if (mode == "tables" || mode == "copies") {
        real r(g, NT);
        lalr_builder b(r.gram, r.dict); b.add_initial_state(r.nts[0]); b.complete_parser();
        lr::parser_tables tab(b, NULL);
        ++res().traces;
        std::string why = tables_check::against(tab, b, {}, NT);
        if (why.empty() && mode == "copies") why = tables_check::copies(b, NULL, tab);
        if (!why.empty()) violation("tables " + desc, why);
        ++res().nontrivial;
        return;
    }
    std::map<std::string, std::string> names; ggram g0 = g;
    if (keywords) {
        for (auto& rs : g0) for (auto& r : rs) for (auto& i : r) i = either(i, half, (int)g.size(), names);
        for (int k = 0; k < half; ++k) g0.push_back({ { t(k) }, { t(k + half) } });
    }
    model m(g0);
    if (!m.usable) { count("skipped_nullable_guard"); return; }
    real r(g, NT);
    // In weak mode, every symbol has a weak symbol which the grammar never uses: it's always the strong one
    bool weak = mode == "weak"; weak_symbols ws(&r.gram);
    if (weak) for (int k = 0; k < NT; ++k) { r.dict.add_symbol(std::wstring(1, wchar_t('A' + k))); item_set w(r.gram); w.insert(item_container(new terminal(NT + k), true)); ws.add_symbols(item_container(new terminal(k), true), w); }
    lalr_builder b(r.gram, r.dict);
    if (keywords) {
        // A weak symbol is itself where it's expected: not judged where its strong symbol is also expected
        for (auto& kn : m.l->kernels) if (kn.size() > 1) for (auto& it : kn) { if (it.first.p < 0 || it.first.dot != 1) continue; auto& pr = m.b->prods[it.first.p]; int lhs = pr.lhs - m.b->terminals; if (pr.rhs.size() == 1 && pr.rhs[0] >= half && pr.rhs[0] < NT && lhs >= (int)g.size() && lhs < (int)g0.size()) { count("skipped_both_expected"); return; } }
        for (int k = 0; k < half; ++k) { item_set w(r.gram); w.insert(item_container(new terminal(half + k), true)); ws.add_symbols(item_container(new terminal(k), true), w); }
        weak = true;
    }
    if (weak) b.add_rewriter(action_rewriter_container(ws.clone(), true));
    int start = b.add_initial_state(r.nts[0]);
    b.complete_parser();
    conflict_list cl; conflict::find_conflicts(b, cl);
    if (m.conflicts() != !cl.empty()) {
        // (the parser's list leaves out conflicts it can't describe by items)
        violation("conflicts " + desc, cl.empty() ? "the grammar has conflicts that aren't reported" : "conflicts are reported for a grammar that has none"); return;
    }
    if (!cl.empty()) { count("skipped_conflicts"); return; }
    // (with the arrays as small as a generated parser's, so that nothing outside them can be used unnoticed)
    parser_tables tab(b, weak ? &ws : NULL); tables_check::exact ex(tab);
    ast_parser p(ex.tables.get(), false);
    bool nontrivial = false;
    for (size_t i = 0; i < S.all.size(); ++i) {
        const std::vector<int>& in = S.all[i];
        m.clash = false;
        size_t errorAt = 0;
        bool want = m.run(in, 0, -1, &errorAt);
        if (m.clash) { count("skipped_several_guards_or_endless"); continue; }
        for (unsigned sub = weak && !keywords ? 1 : 0; sub < (weak && !keywords ? 1u << in.size() : 1u); ++sub) {
        std::vector<int> given = in; if (weak && !keywords) for (size_t k = 0; k < in.size(); ++k) if (sub >> k & 1) given[k] += NT;
        std::unique_ptr<ast_parser::state> st(p.create_parser(new ast_parser_actions(new fixed_stream(given)), start));
        bool ok = st->parse();
        ++res().traces; res().transitions += in.size() + 1;
        if (ok != want) { violation("guard " + desc + " input " + show(given), std::string("the parser ") + (ok ? "accepts" : "rejects") + " the input"); return; }
        if (!ok) {
            const dfa::lexeme_container& la = st->look();
            size_t at = la.item() ? (size_t)la->pos().offset() : in.size();
            if (at != errorAt) { violation("guard-error " + desc + " input " + show(given), "the error is at token " + std::to_string(at) + " instead of " + std::to_string(errorAt)); return; }
            continue;
        }
        nontrivial = true;
        // Every guard in the tree holds where it stands and takes up no input
        std::string why; size_t pos = 0; int guardsSeen = 0;
        std::function<bool(const util::astnode_container&)> rec = [&](const util::astnode_container& nd) -> bool {
            if (nd->lexeme().item()) { if (pos >= in.size() || nd->lexeme()->pos().offset() != (int)pos || nd->lexeme()->matched() != in[pos] % half) { why = "the leaves are not the input"; return false; } ++pos; return true; }
            const rule_container& rl = r.gram.rule_with_identifier(nd->rule());
            if (rl->items().size() != nd->children().size()) { why = "a node doesn't have the items of its rule"; return false; }
            for (size_t k = 0; k < rl->items().size(); ++k) {
                const item_container& it = rl->items()[k];
                if (it->type() == contextfree::item::guard) {
                    ++guardsSeen;
                    int gk = -1; std::string nm = r.name(it); if (keywords) nm = names[nm];
                    for (size_t q = 0; q < m.guards.size(); ++q) if (m.guards[q] == nm) gk = (int)q;
                    if (gk < 0 || !m.run(in, pos, gk, nullptr)) { why = "a guard doesn't hold where it was passed"; return false; }
                } else if (!rec(nd->children()[k])) return false;
            }
            return true;
        };
        if (!rec(st->get_item()) || pos != in.size()) { violation("guard-tree " + desc + " input " + show(given), why.empty() ? "the leaves don't cover the input" : why); return; }
        if (guardsSeen) count("guards_passed", guardsSeen);
        }
    }
    res().states += b.count_states();
    if (nontrivial) ++res().nontrivial;
    if (idx % 997 == 5) sample(std::string(section) + ": " + desc);
}

static std::vector<grule> bodies(const std::vector<gitem>& syms, int lo, int hi) {
    std::vector<grule> out(1), res; size_t from = 0;
    if (lo == 0) res.push_back(out[0]);
    for (int l = 1; l <= hi; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (auto& s : syms) { grule r = out[i]; r.push_back(s); out.push_back(r); if (l >= lo) res.push_back(r); } from = to; }
    return res;
}
static bool has_guard(const grule& r) { for (auto& i : r) { if (i.kind == GUARD) return true; for (auto& q : i.rules) if (has_guard(q)) return true; } return false; }

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        bool th = cfg().thorough;
        mode = cfg().extra.empty() ? "parse" : cfg().extra[0];
        bool exact = mode == "exact" || mode == "weak";          // (fewer inputs, for the slower instrumented build)
        case_seconds() = 30;
        bool sub = mode == "weak"; bool kw = mode == "keywords"; strings S2(kw ? 4 : 2, kw ? (th ? 4 : 3) : sub ? (th ? 5 : 3) : th ? 7 : exact ? 4 : 5), S3(3, sub ? 3 : th ? 5 : exact ? 3 : 4);
        gitem a = t(0), b = t(1), c = t(2), S_ = n(0), A = n(1), B = n(2);
        std::vector<std::vector<grule>> as = { { {a}, {} }, { {a} }, { {a, A}, {b} }, { {A, a}, {a} }, { {a, A, b}, {} } };
        long long idx = 0;
        std::vector<gitem> guards = { grd({a, b}), grd({A, b}), grd({a, a}), grd({b, a}), grd({rep({a}), b}), grd({alt({{a, b}, {b}})}), grd({A}), grd({a, grd({b}), b, a}), grd({grd({a}), A, b}) };
        if (kw) { gitem wa = t(2), wb = t(3); guards = { grd({wa, b}), grd({A, wb}), grd({wa, wb}), grd({wa}), grd({rep({wa}), b}), grd({alt({{wa, b}, {b}})}), grd({a, wb, a}), grd({wb, grd({wa, b}), A}), grd({opt({wa}), wb}) }; }
        for (auto& gd : guards) {
            auto bd = bodies({ a, b, A, gd }, 0, th ? 4 : 3);
            std::vector<grule> with, all = bd; for (auto& x : bd) if (has_guard(x)) with.push_back(x);
            for (auto& x : with) for (auto& y : all) if (text(x) != text(y)) for (auto& ar : as) check("two-rules", idx++, { {x, y}, ar }, S2);
        }
        idx = 0;   // Two different guards
        for (size_t i = 0; i < guards.size(); ++i) for (size_t j = 0; j < guards.size(); ++j) if (i != j) {
            auto b1 = bodies({ a, b, A }, 1, 2), b0 = bodies({ a, b, A }, 0, 1);
            for (auto& x : b1) for (auto& y : b1) for (auto& pre : b0) {
                grule r1 = pre, r2 = pre; r1.push_back(guards[i]); r1.insert(r1.end(), x.begin(), x.end()); r2.push_back(guards[j]); r2.insert(r2.end(), y.begin(), y.end());
                check("two-guards", idx++, { {r1, r2}, as[idx % as.size()] }, S2);
            }
        }
        idx = 0;   // Guards inside EBNF items
        for (auto& gd : guards) {
            std::vector<gitem> pool = { a, b, A, star({gd, a}), opt({gd, a, b}), alt({{gd, A}, {b}}), rep({gd, A}), opt({gd, A}), star({gd, a, b}), alt({{gd, a}, {a, b}}), rep({gd, a, opt({b})}), gd };
            auto bd = bodies(pool, 1, 3);
            for (auto& x : bd) if (has_guard(x)) check("ebnf", idx++, { {x}, as[idx % as.size()] }, S2);
            auto b1 = bodies(pool, 1, 2);
            if (th) for (auto& x : b1) if (has_guard(x)) for (auto& y : b1) check("ebnf-2", idx++, { {x, y}, as[idx % as.size()] }, S2);
        }
        idx = 0;   // Guards in a second nonterminal: reductions happen on guards
        for (auto& gd : guards) {
            auto bs = bodies({ a, b, B, A }, 1, 3); auto bb = bodies({ a, b, A, gd }, 1, 2);
            for (auto& s : bs) { bool uses = false; for (auto& q : s) uses |= q.kind == N && q.sym == 2; if (uses) for (auto& x : bb) if (has_guard(x)) for (int k = 0; k < 2; ++k) check("inner", idx++, { {s}, as[(idx / 2) % as.size()], k ? std::vector<grule>{ x, {b, b} } : std::vector<grule>{ x, {} } }, S2); }
        }
        idx = 0;   // Guards with a choice between another guard and a symbol, where the other guard fails after looking further ahead
        {
            std::vector<gitem> gs = { grd({alt({{grd({a, b}), a, b}, {a, a}})}), grd({alt({{grd({a, b, a}), a, b}, {a}}), b}), grd({A, alt({{grd({b, b}), b}, {b, a}})}), grd({star({alt({{grd({a, a, b}), a}, {b}})}), a}) };
            if (kw) gs = { grd({alt({{grd({t(2), b}), a, b}, {a, a}})}), grd({alt({{grd({a, t(3), a}), t(2), b}, {a}}), b}), grd({A, alt({{grd({t(3), t(3)}), b}, {b, a}})}) };
            for (auto& gd : gs) {
                auto bd = bodies({ a, b, A, gd }, 0, 3); std::vector<grule> with, all; for (auto& x : bd) { if (has_guard(x)) with.push_back(x); if (x.size() < 3) all.push_back(x); }
                for (auto& x : with) for (auto& y : all) if (text(x) != text(y)) check("nested", idx++, { {x, y}, as[idx % as.size()] }, S2);
            }
        }
        idx = 0;   // Three terminals: like the context sensitive example (a^n b^n c^n)
        {
            std::vector<gitem> gs = { grd({A, c}), grd({rep({a}), c}), grd({a, star({b}), c}), grd({opt({a}), b}), grd({A, A}) };
            for (auto& gd : gs) {
                auto bd = bodies({ a, b, c, A, B, gd }, 2, 4);
                for (auto& x : bd) if (x[0].kind == GUARD || (x.size() > 1 && x[1].kind == GUARD)) {
                    check("three", idx++, { {x}, { {a, A, b}, {a, b} }, { {a, B}, {c} } }, S3);
                    check("three", idx++, { {x, {a, c}}, { {a, A}, {b} }, { {b, B, c}, {b, c} } }, S3);
                }
            }
        }
    });
}
