// Reference semantics for automata and regular expressions, independent of the code under test.
#ifndef VP_AUTOMATA_H
#define VP_AUTOMATA_H
#include "vp.h"
#include <memory>
#include "TameParse/Dfa/ndfa.h"
#include "TameParse/Dfa/ndfa_regex.h"
#include "TameParse/Dfa/transition.h"
#include "TameParse/Dfa/lexer.h"

namespace vp {
    // ---- Interpreting an ndfa object as a non-deterministic automaton (own closure, own symbol lookup)
    struct nfa_view {
        struct edge { std::vector<std::pair<int,int>> ranges; int target; };
        std::vector<std::vector<edge>> edges;
        std::vector<std::vector<int>> eps;
        std::vector<std::set<int>> accept;      // accept symbols of each state

        explicit nfa_view(const dfa::ndfa& n) {
            int c = n.count_states();
            edges.resize(c); eps.resize(c); accept.resize(c);
            for (int s = 0; s < c; ++s) {
                const dfa::state& st = n.get_state(s);
                for (dfa::state::iterator t = st.begin(); t != st.end(); ++t) {
                    const dfa::symbol_set& ss = n.symbols()[t->symbol_set()];
                    edge e; e.target = t->new_state();
                    for (dfa::symbol_set::iterator r = ss.begin(); r != ss.end(); ++r) e.ranges.push_back(std::make_pair(r->lower(), r->upper()));
                    if (e.ranges.empty()) eps[s].push_back(e.target); else edges[s].push_back(e);
                }
                const dfa::ndfa::accept_action_list& al = n.actions_for_state(s);
                for (size_t a = 0; a < al.size(); ++a) accept[s].insert(al[a]->symbol());
            }
        }
        typedef std::set<int> states;
        void close(states& s) const {
            std::vector<int> todo(s.begin(), s.end());
            while (!todo.empty()) {
                int x = todo.back(); todo.pop_back();
                if (x < 0 || x >= (int)eps.size()) continue;
                for (int t : eps[x]) if (s.insert(t).second) todo.push_back(t);
            }
        }
        states start(int s = 0) const { states r; r.insert(s); close(r); return r; }
        states step(const states& from, int c) const {
            states r;
            for (int s : from) for (auto& e : edges[s]) for (auto& rg : e.ranges) if (c >= rg.first && c < rg.second) { r.insert(e.target); break; }
            close(r);
            return r;
        }
        std::set<int> accepts(const states& from) const {
            std::set<int> r;
            for (int s : from) r.insert(accept[s].begin(), accept[s].end());
            return r;
        }
    };

    // ---- Regular expressions with derivatives as their meaning
    struct rx;
    typedef std::shared_ptr<const rx> rxp;
    struct rx {
        enum kind { none, empty, chars, cat, alt, star } k;
        std::vector<std::pair<int,int>> ranges;     // chars: half-open
        rxp a, b;
        std::string key;
        bool nullable;
    };
    struct rx_factory {
        std::map<std::string, rxp> pool;
        rxp make(rx r) {
            std::ostringstream k;
            switch (r.k) {
                case rx::none: k << "0"; r.nullable = false; break;
                case rx::empty: k << "1"; r.nullable = true; break;
                case rx::chars: k << "["; for (auto& x : r.ranges) k << x.first << "-" << x.second << ","; k << "]"; r.nullable = false; break;
                case rx::cat: k << "(" << r.a->key << "." << r.b->key << ")"; r.nullable = r.a->nullable && r.b->nullable; break;
                case rx::alt: k << "(" << r.a->key << "|" << r.b->key << ")"; r.nullable = r.a->nullable || r.b->nullable; break;
                case rx::star: k << r.a->key << "*"; r.nullable = true; break;
            }
            r.key = k.str();
            auto f = pool.find(r.key);
            if (f != pool.end()) return f->second;
            rxp p = std::make_shared<rx>(r);
            pool[r.key] = p;
            return p;
        }
        rxp none() { rx r; r.k = rx::none; return make(r); }
        rxp empty() { rx r; r.k = rx::empty; return make(r); }
        rxp chars(std::vector<std::pair<int,int>> rg) { rx r; r.k = rx::chars; r.ranges = rg; return make(r); }
        rxp chr(int c) { return chars({{c, c + 1}}); }
        rxp cat(rxp a, rxp b) {
            if (a->k == rx::none || b->k == rx::none) return none();
            if (a->k == rx::empty) return b;
            if (b->k == rx::empty) return a;
            if (a->k == rx::cat) return cat(a->a, cat(a->b, b));
            rx r; r.k = rx::cat; r.a = a; r.b = b; return make(r);
        }
        void flat(rxp a, std::map<std::string, rxp>& s) { if (a->k == rx::alt) { flat(a->a, s); flat(a->b, s); } else if (a->k != rx::none) s[a->key] = a; }
        rxp alt(rxp a, rxp b) {     // Modulo associativity, commutativity, idempotence: finitely many derivatives
            std::map<std::string, rxp> s;
            flat(a, s); flat(b, s);
            if (s.empty()) return none();
            rxp r;
            for (auto i = s.rbegin(); i != s.rend(); ++i) {
                if (!r) r = i->second;
                else { rx x; x.k = rx::alt; x.a = i->second; x.b = r; r = make(x); }
            }
            return r;
        }
        rxp star(rxp a) { if (a->k == rx::none || a->k == rx::empty) return empty(); if (a->k == rx::star) return a; rx r; r.k = rx::star; r.a = a; return make(r); }
        std::map<std::pair<const rx*, int>, rxp> dcache;
        rxp derive(rxp r, int c) {
            auto key = std::make_pair(r.get(), c);
            auto f = dcache.find(key);
            if (f != dcache.end()) return f->second;
            rxp o;
            switch (r->k) {
                case rx::none: case rx::empty: o = none(); break;
                case rx::chars: { bool in = false; for (auto& x : r->ranges) if (c >= x.first && c < x.second) in = true; o = in ? empty() : none(); break; }
                case rx::cat: o = cat(derive(r->a, c), r->b); if (r->a->nullable) o = alt(o, derive(r->b, c)); break;
                case rx::alt: o = alt(derive(r->a, c), derive(r->b, c)); break;
                case rx::star: o = cat(derive(r->a, c), r); break;
            }
            dcache[key] = o;
            return o;
        }
    };
}
#endif
