// C19: parser stacks and parser states can be copied, run and destroyed independently.
//   stack  all histories of push/pop/copy/assign/destroy over up to three references, against a list per reference
//   clone  all inputs of a pool of grammars; a clone taken at every step; every schedule of the two (or three) states up to a number
//          of context switches, and every order of destruction
#include <memory>
#include "cfg.h"
#include "TameParse/Lr/conflict.h"
#include "TameParse/Lr/ast_parser.h"
using namespace vp; using namespace vp::cfg_model; using namespace contextfree; using namespace lr;

// ---- Stacks
static int liveItems = 0;
struct tracked { int v; tracked(int x = -1) : v(x) { ++liveItems; } tracked(const tracked& o) : v(o.v) { ++liveItems; } ~tracked() { --liveItems; } };

template<int D> struct stack_run {
    typedef parser_stack<tracked, D> pstack;
    struct ref { std::unique_ptr<pstack> p; std::vector<std::pair<int,int>> model; };
    ref r[3];
    int next;
    stack_run() : next(100) { r[0].p.reset(new pstack()); (**r[0].p).state = 7; (**r[0].p).item.v = 7; r[0].model.push_back({7, 7}); }
    int live() const { int n = 0; for (auto& x : r) if (x.p) ++n; return n; }
    bool apply(int op, int k) {
        ref& x = r[k];
        switch (op) {
        case 0: case 1: case 2: { if (!x.p) return false; int n = op == 0 ? 1 : op == 1 ? D : 2 * D + 1; while (n--) { ++next; x.p->push(next, tracked(next + 1000)); x.model.push_back({next, next + 1000}); } return true; }
        case 3: if (!x.p) return false; { bool ok = x.p->pop(), want = x.model.size() > 1; if (want) x.model.pop_back(); if (ok != want) throw std::string("pop returned the wrong result"); } return true;
        case 4: if (!x.p) return false; while (x.model.size() > 1) { x.model.pop_back(); if (!x.p->pop()) throw std::string("pop failed"); } return true;
        case 5: case 6: { int to = (k + op - 4) % 3; if (!x.p || r[to].p) return false; r[to].p.reset(new pstack(*x.p)); r[to].model = x.model; return true; }
        case 7: case 8: { int to = (k + op - 6) % 3; if (!x.p || !r[to].p) return false; *r[to].p = *x.p; r[to].model = x.model; return true; }
        case 9: if (!x.p || live() < 2) return false; x.p.reset(); x.model.clear(); return true;
        }
        return false;
    }
    void check() {
        for (auto& x : r) if (x.p) {
            const pstack& c = *x.p;
            if (c->state != x.model.back().first || c->item.v != x.model.back().second) throw std::string("the top of a stack changed");
            for (size_t i = 0; i < x.model.size() + 1; ++i) {
                size_t at = i < x.model.size() ? x.model.size() - 1 - i : 0;
                if (c[-(int)i].state != x.model[at].first || c[-(int)i].item.v != x.model[at].second) throw std::string("an entry below the top of a stack changed");
            }
        }
    }
};
static const int OPS = 10;
template<int D> static void stacks(const char* section, int depth) {
    std::vector<int> seq;
    long long idx = 0;
    auto show = [&]() { std::string o; static const char* nm[] = { "push1", "pushD", "push2D+1", "pop", "popall", "copy1", "copy2", "assign1", "assign2", "destroy" }; for (int s : seq) o += std::string(nm[s % OPS]) + "@" + std::to_string(s / OPS) + " "; return o; };
    // Histories that fail to apply are cut; prefixes of two operations make a case
    std::function<void(int)> rec = [&](int from) {
        if ((int)seq.size() >= depth) return;
        for (int s = 0; s < OPS * 3; ++s) {
            seq.push_back(s);
            bool ok = true;
            if ((int)seq.size() == 3) { if (!begin_case(section, idx++)) ok = false; }
            if (ok) {
                std::string why;
                describe(show());
                int before = liveItems;
                try {
                    stack_run<D> run;
                    for (size_t i = 0; ok && i < seq.size(); ++i) ok = run.apply(seq[i] % OPS, seq[i] / OPS);
                    if (ok) { ++res().traces; ++res().states; res().transitions += seq.size(); if (run.live() > 1) ++res().nontrivial; run.check(); }
                } catch (std::string& e) { why = e; ok = false; }
                if (why.empty() && liveItems != before) { why = "items are left over when every reference is gone"; liveItems = before; }
                if (!why.empty()) { violation("stack " + show(), why); }
            }
            if (ok) rec(0);
            seq.pop_back();
        }
    };
    rec(0);
}

// ---- Parser states
static std::string tree(const util::astnode_container& n) {
    if (!n.item()) return "none";
    if (n->lexeme().item()) return std::string(1, (char)('a' + n->lexeme()->matched())) + std::to_string(n->lexeme()->pos().offset());
    std::string o = std::to_string(n->item_identifier()) + "/" + std::to_string(n->rule()) + "(";
    for (auto& c : n->children()) o += tree(c) + " ";
    return o + ")";
}
struct outcome { parser_result::result r; std::string t; int at; bool operator!=(const outcome& o) const { return r != o.r || t != o.t || at != o.at; } };
static std::string text(const outcome& o) { return std::string(o.r == parser_result::accept ? "accept " : o.r == parser_result::reject ? "reject " : "more ") + o.t + " at " + std::to_string(o.at); }
static outcome of(ast_parser::state& s, parser_result::result r) {
    const dfa::lexeme_container& l = s.look();
    return outcome{ r, r == parser_result::accept ? tree(s.get_item()) : "", l.item() ? l->pos().offset() : -1 };
}
static void clones(const char* section, long long& idx, const ggram& g, int terms, int maxLen, int switches) {
    strings S(terms, maxLen);
    real r(g, terms);
    lalr_builder b(r.gram, r.dict);
    b.add_initial_state(r.nts[0]); b.complete_parser();
    ast_parser p(b, NULL);
    bnf bn(g, terms); bn.analyse();
    for (size_t i = 0; i < S.all.size(); ++i) {
        const std::vector<int>& in = S.all[i];
        if (!begin_case(section, idx++)) continue;
        std::string desc = vp::cfg_model::text(g) + " input " + cfg_model::show(in);
        describe(desc);
        // Alone
        std::vector<outcome> alone;
        std::vector<std::vector<bool>> can;
        {
            std::unique_ptr<ast_parser::state> s(p.create_parser(new ast_parser_actions(new fixed_stream(in)), 0));
            for (;;) {
                std::vector<bool> c; for (int t = 0; t < terms; ++t) c.push_back(s->can_reduce(t)); c.push_back(s->can_reduce());
                can.push_back(c);
                parser_result::result x = s->process();
                alone.push_back(of(*s, x));
                if (x != parser_result::more) break;
            }
        }
        // Whether the next token can be shifted after the reductions is what happens in fact
        for (size_t k = 0; k < can.size(); ++k) {
            int at = k ? alone[k - 1].at : in.empty() ? -1 : 0;
            bool moves = alone.back().r == parser_result::accept || alone.back().at != at;
            if (can[k].back() != moves) { violation("can-reduce " + desc, "after " + std::to_string(k) + " steps the lookahead is said to be " + (can[k].back() ? "" : "un") + "acceptable, but it isn't so"); break; }
            if (at >= 0 && can[k][in[at]] != can[k].back()) { violation("can-reduce " + desc, "the lookahead and its symbol get different answers after " + std::to_string(k) + " steps"); break; }
        }
        size_t total = alone.size();
        // Schedules: after k steps clone; then strings of runs (which state, how many steps) with a limited number of switches
        for (size_t k = 0; k < total; ++k) {
            std::vector<size_t> runs;
            std::function<void(int)> go = [&](int left) {
                for (int first = 0; first < 2; ++first) for (int order = 0; order < 2; ++order) {
                    // runs[0] steps of state 'first', runs[1] of the other...; the rest is run at the end in 'order'
                    int reads = 0; bool deleted = false;
                    std::string why;
                    {
                        std::unique_ptr<ast_parser::state> s[3];
                        s[0].reset(p.create_parser(new ast_parser_actions(new fixed_stream(in, &reads, &deleted)), 0));
                        size_t done[3] = { 0, 0, 0 };
                        auto step = [&](int w) {
                            if (!s[w] || done[w] >= total) return;
                            parser_result::result x = s[w]->process();
                            ++res().transitions;
                            outcome o = of(*s[w], x);
                            if (o != alone[done[w]] && why.empty()) why = "step " + std::to_string(done[w]) + " of state " + std::to_string(w) + " gives " + text(o) + ", by itself " + text(alone[done[w]]);
                            ++done[w];
                        };
                        for (size_t q = 0; q < k; ++q) step(0);
                        s[1].reset(new ast_parser::state(*s[0])); done[1] = done[0];
                        int w = first;
                        for (size_t q = 0; q < runs.size(); ++q) {
                            for (size_t z = 0; z < runs[q]; ++z) step(w);
                            w = !w;
                        }
                        // A third state cloned from whoever is next
                        s[2].reset(new ast_parser::state(*s[w])); done[2] = done[w];
                        int a = order ? 0 : 1;
                        while (done[a] < total && why.empty()) step(a);
                        s[a].reset();
                        if (deleted) why = "the input was destroyed while a state still uses it";
                        while (done[2] < total && why.empty()) step(2);
                        if (order) s[2].reset();
                        while (done[!a] < total && why.empty()) step(!a);
                    }
                    if (why.empty() && !deleted) why = "the input isn't destroyed with the last state";
                    if (why.empty() && reads != (int)std::min(in.size(), (size_t)(alone.back().at < 0 ? in.size() : alone.back().at + 1))) why = "tokens were read " + std::to_string(reads) + " times";
                    ++res().traces;
                    if (!why.empty()) { std::string sc; for (size_t x : runs) sc += std::to_string(x) + " "; violation("clone " + desc + " cloned after " + std::to_string(k) + " schedule " + sc + "first " + std::to_string(first) + " order " + std::to_string(order), why); return; }
                }
                if (left == 0) return;
                for (size_t n = 1; n <= total - k; ++n) { runs.push_back(n); go(left - 1); runs.pop_back(); }
            };
            go(switches);
        }
        ++res().states;
        if (alone.back().r == parser_result::accept) ++res().nontrivial;
    }
}

int main(int argc, char** argv) {
    return run_main(argc, argv, [&]() {
        std::string mode = cfg().extra.empty() ? "stack" : cfg().extra[0];
        bool th = cfg().thorough;
        case_seconds() = 120;
        if (mode == "stack") { stacks<2>("stack-2", th ? 7 : 6); stacks<3>("stack-3", th ? 6 : 5); stacks<4>("stack-4", th ? 6 : 5); }
        else {
            gitem a = t(0), b = t(1), S_ = n(0), A = n(1), B = n(2);
            std::vector<ggram> gs = {
                { {{a, S_, b}, {a, b}} }, { {{S_, a}, {b}} }, { {{a, S_}, {b}} }, { {{A, b}, {b, A}}, {{a, A}, {}} },
                { {{A, B}}, {{a, A}, {a}}, {{b}, {b, B}} }, { {{star({a}), rep({b})}} }, { {{S_, A}, {}}, {{a}, {b, b}} }, { {{A, a}}, {{B, b}}, {{B}, {}} } };
            long long idx = 0;
            for (auto& g : gs) clones("clone", idx, g, 2, th ? 6 : 5, th ? 3 : 2);
            // Deep nesting: the stack has to grow and be collected
            gs = { { {{a, S_, b}, {a, b}} } };
            idx = 0;
            for (int depth : { 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 200, 600 }) for (int bad = 0; bad < 2; ++bad) {
                if (!begin_case("deep", idx++, std::to_string(depth))) continue;
                std::vector<int> in(depth, 0); in.insert(in.end(), depth - bad, 1);
                real r(gs[0], 2); lalr_builder bd(r.gram, r.dict); bd.add_initial_state(r.nts[0]); bd.complete_parser();
                ast_parser p(bd, NULL);
                std::unique_ptr<ast_parser::state> s0(p.create_parser(new ast_parser_actions(new fixed_stream(in)), 0)), s1;
                std::string alone;
                { std::unique_ptr<ast_parser::state> x(p.create_parser(new ast_parser_actions(new fixed_stream(in)), 0)); bool ok = x->parse(); alone = ok ? tree(x->get_item()) : "reject"; if (ok == (bool)bad) violation("deep " + std::to_string(depth), "wrong verdict on nested input"); }
                for (size_t k = 0; k + 1 < in.size(); k += 7) {
                    std::unique_ptr<ast_parser::state> m(p.create_parser(new ast_parser_actions(new fixed_stream(in)), 0));
                    for (size_t q = 0; q < k; ++q) m->process();
                    std::unique_ptr<ast_parser::state> c(new ast_parser::state(*m));
                    // Interleave step by step, then let the original die first
                    for (size_t q = 0; q < in.size() / 2; ++q) { if (m->process() != parser_result::more) break; if (c->process() != parser_result::more) break; }
                    m.reset();
                    // (a state that has already finished stays finished)
                    bool ok = c->parse();
                    std::string got = ok ? tree(c->get_item()) : "reject";
                    ++res().traces; res().transitions += in.size();
                    if (got != alone) { violation("deep " + std::to_string(depth) + " cloned after " + std::to_string(k), "the clone gives " + got.substr(0, 100) + "..., the original " + alone.substr(0, 100)); break; }
                }
            }
        }
    });
}
