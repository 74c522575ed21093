// Shared ownership: every history of operations on a few references, up to a depth, for util::container and util::syntax_ptr,
// against a model that knows which objects can still be reached. Plus the order and equality of containers, lexemes and tree nodes.
#include "vp.h"
#include <memory>
#include "TameParse/Util/container.h"
#include "TameParse/Util/syntax_ptr.h"
#include "TameParse/Util/astnode.h"
#include "TameParse/Dfa/lexeme.h"
using namespace vp; using namespace std;

// ---- the objects that are shared. Every one is registered from construction to destruction -------------------------------
static set<int> g_live; static int g_made = 0; static bool g_twice = false;

template<template<class> class Ref> struct node {
    int id, value;
    vector<Ref<node>> kids;
    node() : id(g_made++), value(0) { g_live.insert(id); }
    node(const node& c) : id(g_made++), value(c.value), kids(c.kids) { g_live.insert(id); }
    virtual ~node() { if (!g_live.erase(id)) g_twice = true; }
    node* clone() const { return new node(*this); }
    bool operator==(const node& o) const { return value == o.value; }
    static bool compare(const node* a, const node* b) { if (a == b) return false; if (!a) return true; if (!b) return false; return a->value < b->value; }
};
template<template<class> class Ref> struct subnode : public node<Ref> { int extra[4]; subnode() { extra[0] = 7; } };
template<class T> using cont = util::container<T>;
template<class T> using sptr = util::syntax_ptr<T>;

// ---- model: objects by number; which are owned by references; the references of every variable and of every object's children
struct mobj { bool owned; vector<int> kids; };
struct model {
    vector<int> var; map<int, mobj> objs;       // -1 is NULL
    set<int> live() const {
        set<int> seen; vector<int> todo;
        for (int v : var) todo.push_back(v);
        for (auto& o : objs) if (!o.second.owned) todo.push_back(o.first);
        while (!todo.empty()) { int o = todo.back(); todo.pop_back(); if (o < 0 || !seen.insert(o).second) continue; for (int k : objs.at(o).kids) todo.push_back(k); }
        return seen;
    }
    bool reaches(int from, int to) const { if (from < 0) return false; if (from == to) return true; for (int k : objs.at(from).kids) if (reaches(k, to)) return true; return false; }
};

struct opn { int kind, a, b; };
static const char* opnames[] = { "new", "default", "null", "borrow", "copy", "addchild", "takechild", "dropchild", "clone", "viacopy", "takegrandchild", "setchild", "cast" };
static string show(const vector<opn>& h) { string s; for (auto& o : h) s += string(s.empty() ? "" : "; ") + opnames[o.kind] + "(" + to_string(o.a) + (o.b >= 0 ? "," + to_string(o.b) : "") + ")"; return s; }

struct cont_ops {
    typedef node<cont> N; typedef cont<N> R;
    static R make() { return R(new N(), true); }
    static R null() { return R((N*) NULL, true); }
    static R def() { return R(); }
    static R borrow(N* n) { return R(n); }
    static R cln(const R& r) { return R((const N*) r.item()); }
    static R cast(const R& r) { return r; }
    static N* item(R& r) { return r.item(); }
    static const bool defaultMakes = true, canBorrow = true, canClone = true, canCast = false;
};
struct sptr_ops {
    typedef node<sptr> N; typedef sptr<N> R;
    static R make() { return R(new subnode<sptr>()); }
    static R null() { return R((N*) NULL); }
    static R def() { return R(); }
    static R borrow(N*) { return R(); }
    static R cln(const R& r) { return r; }
    static R cast(const R& r) { sptr<subnode<sptr>> s = r.template cast_to<subnode<sptr>>(); sptr<subnode<sptr>> t; t = s; return t.cast_to<N>(); }
    static N* item(R& r) { return const_cast<N*>(r.item()); }
    static const bool defaultMakes = false, canBorrow = false, canClone = false, canCast = true;
};

template<class O> static void histories(const char* section, int vars, int depth) {
    typedef typename O::N N; typedef typename O::R R;
    vector<opn> ops;
    for (int a = 0; a < vars; ++a) {
        ops.push_back(opn{0, a, -1}); ops.push_back(opn{1, a, -1}); ops.push_back(opn{2, a, -1});
        if (O::canBorrow) ops.push_back(opn{3, a, -1});
        ops.push_back(opn{7, a, -1});
        for (int b = 0; b < vars; ++b) {
            ops.push_back(opn{4, a, b}); if (a != b) { ops.push_back(opn{5, a, b}); ops.push_back(opn{11, a, b}); }
            ops.push_back(opn{6, a, b}); ops.push_back(opn{10, a, b});
            if (O::canClone) ops.push_back(opn{8, a, b});
            if (O::canCast) ops.push_back(opn{12, a, b});
            if (a < b) ops.push_back(opn{9, a, b});
        }
    }
    long long index = 0;
    vector<opn> h(depth);
    auto run = [&](const vector<opn>& h, bool check) -> bool {       // check=false only asks the model whether the history makes sense
        ++res().traces;
        g_live.clear(); g_made = 0; g_twice = false;
        unique_ptr<N> borrowed(O::canBorrow ? new N() : NULL);
        model m;
        if (O::canBorrow) m.objs[0] = mobj{false, {}};
        vector<unique_ptr<R>> v;
        for (int i = 0; i < vars; ++i) { v.emplace_back(new R(O::make())); m.var.push_back(g_made - 1); m.objs[g_made - 1] = mobj{true, {}}; }
        auto at = [&](int i) -> R& { return *v[i]; };
        bool ok = true;
        auto compare = [&](size_t step) {
            ++res().evaluations;
            set<int> want = m.live();
            if (g_twice) { violation("destroyed-twice " + show(h), "an object is destroyed twice"); ok = false; return; }
            if (want != g_live) {
                bool missing = false; for (int w : want) if (!g_live.count(w)) missing = true;
                violation(string(missing ? "destroyed-early " : "leaked ") + show(h), missing ? "an object that is still referred to was destroyed at step " + to_string(step) : "an object that nothing refers to any more was not destroyed by step " + to_string(step)); ok = false; return;
            }
            for (int i = 0; i < vars && v.size() > (size_t) i; ++i) if (v[i]) {
                N* n = O::item(at(i));
                int got = n ? n->id : -1;
                if (got != m.var[i]) { violation("wrong-object " + show(h), "variable " + to_string(i) + " refers to another object after step " + to_string(step)); ok = false; return; }
            }
            for (int w : want) (void) w;
        };
        size_t step = 0;
        for (auto& o : h) {
            ++step; ++res().transitions;
            int va = m.var[o.a], vb = o.b >= 0 ? m.var[o.b] : -1;
            switch (o.kind) {
                case 0: at(o.a) = O::make(); m.var[o.a] = g_made - 1; m.objs[g_made - 1] = mobj{true, {}}; break;
                case 1: at(o.a) = O::def(); if (O::defaultMakes) { m.var[o.a] = g_made - 1; m.objs[g_made - 1] = mobj{true, {}}; } else m.var[o.a] = -1; break;
                case 2: at(o.a) = O::null(); m.var[o.a] = -1; break;
                case 3: at(o.a) = O::borrow(borrowed.get()); m.var[o.a] = 0; break;
                case 4: at(o.a) = at(o.b); m.var[o.a] = vb; break;
                case 5: if (va < 0 || vb < 0 || m.reaches(vb, va)) continue; O::item(at(o.a))->kids.push_back(at(o.b)); m.objs[va].kids.push_back(vb); break;
                case 6: if (vb < 0 || m.objs[vb].kids.empty()) continue; { int k = m.objs[vb].kids[0]; at(o.a) = O::item(at(o.b))->kids[0]; m.var[o.a] = k; } break;
                case 7: if (va < 0 || m.objs[va].kids.empty()) continue; O::item(at(o.a))->kids.pop_back(); m.objs[va].kids.pop_back(); break;
                case 8: { at(o.a) = O::cln(at(o.b)); if (vb < 0) m.var[o.a] = -1; else { m.var[o.a] = g_made - 1; mobj c{true, m.objs[vb].kids}; m.objs[g_made - 1] = c; } } break;
                case 9: { R t(at(o.a)); at(o.a) = at(o.b); at(o.b) = t; swap(m.var[o.a], m.var[o.b]); } break;
                case 10: { if (vb < 0 || m.objs[vb].kids.empty()) continue; int k = m.objs[vb].kids.back(); if (k < 0 || m.objs[k].kids.empty()) continue; int g = m.objs[k].kids[0];
                           at(o.a) = O::item(O::item(at(o.b))->kids.back())->kids[0]; m.var[o.a] = g; } break;
                case 11: if (va < 0 || m.objs[va].kids.empty() || m.reaches(vb, va)) continue; O::item(at(o.a))->kids[0] = at(o.b); m.objs[va].kids[0] = vb; break;
                case 12: at(o.a) = O::cast(at(o.b)); m.var[o.a] = vb; break;
            }
            compare(step);
            if (!ok) _exit(93);                                     // The heap can't be trusted any more
        }
        // Every order of giving up the variables
        static int orders[6][3] = { {0,1,2}, {2,1,0}, {1,0,2}, {0,2,1}, {2,0,1}, {1,2,0} };
        unsigned sum = 0; for (auto& o : h) sum = sum * 31 + o.kind * 9 + o.a * 3 + o.b;
        int* ord = orders[sum % (vars == 3 ? 6 : 2)];
        for (int i = 0; i < 3; ++i) { int x = vars == 3 ? ord[i] : (ord == orders[0] ? i : 1 - i); if (x < 0 || x >= vars) continue; v[x].reset(); m.var[x] = -1; compare(100 + i); if (!ok) _exit(93); }
        if (borrowed) { borrowed->kids.clear(); m.objs[0].kids.clear(); compare(200); borrowed.reset(); }
        if (!g_live.empty() || g_twice) { violation("leaked " + show(h), "not every object is destroyed exactly once"); _exit(93); }
        ++res().nontrivial;
        return true;
    };
    // All histories: one case per prefix of all but the last three operations
    int split = max(0, depth - 3);
    function<void(int)> rec = [&](int d) {
        if (d == depth) { run(h, true); return; }
        if (d == split) { string k = show(vector<opn>(h.begin(), h.begin() + d)); if (!begin_case(section, index++, k + "...")) return; }
        for (auto& o : ops) { h[d] = o; rec(d + 1); }
    };
    rec(0);
    res().states = max(res().states, (unsigned long long) g_made);
}

// ---- order and equality --------------------------------------------------------------------------------------------------
template<class T, class L, class S> static void check_order(const char* section, const vector<T>& u, L less, S same, const vector<string>& name, bool needTotal) {
    if (!begin_case(section, 0, string(section) + ": all pairs and triples")) return;
    size_t n = u.size();
    vector<vector<char>> lt(n, vector<char>(n));
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) lt[i][j] = less(u[i], u[j]);
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) {
        ++res().evaluations; ++res().transitions;
        bool eq = same(i, j);
        if (eq && (lt[i][j] || lt[j][i])) violation("equal-but-ordered " + name[i] + " , " + name[j], "the same content is ordered before itself");
        if (needTotal && !eq && !lt[i][j] && !lt[j][i]) violation("different-but-unordered " + name[i] + " , " + name[j], "different content is not ordered either way");
        if (lt[i][j] && lt[j][i]) violation("both-ways " + name[i] + " , " + name[j], "each is before the other");
        if (lt[i][j]) for (size_t k = 0; k < n; ++k) if (lt[j][k] && !lt[i][k]) { violation("not-transitive " + name[i] + " , " + name[j] + " , " + name[k], "a<b and b<c but not a<c"); }
    }
    res().states += n; ++res().nontrivial;
    sample(string(section) + ": " + to_string(n) + " values");
}

int main(int argc, char** argv) {
    return run_main(argc, argv, []() {
        bool th = cfg().thorough; string mode = cfg().extra.empty() ? "all" : cfg().extra[0];
        if (mode == "all" || mode == "histories") {
            histories<cont_ops>("container2", 2, th ? 5 : 4);
            histories<cont_ops>("container3", 3, th ? 4 : 3);
            histories<sptr_ops>("syntax_ptr2", 2, th ? 5 : 4);
            histories<sptr_ops>("syntax_ptr3", 3, th ? 4 : 3);
        }
        if (mode == "all" || mode == "order") {
            typedef cont<node<cont>> R;
            // Containers of the values NULL, 0, 1, 2, each held by two separate references and by a copy
            if (begin_case("container-order", 0, "comparison operators of containers")) {
                vector<R> u; vector<int> val;
                for (int v = -1; v < 3; ++v) { for (int k = 0; k < 2; ++k) { if (v < 0) u.push_back(R((node<cont>*) NULL, true)); else { node<cont>* n = new node<cont>(); n->value = v; u.push_back(R(n, true)); } val.push_back(v); } u.push_back(R(u.back())); val.push_back(v); }
                for (size_t i = 0; i < u.size(); ++i) for (size_t j = 0; j < u.size(); ++j) {
                    int a = val[i], b = val[j]; ++res().evaluations; ++res().transitions;
                    string w = (a < 0 ? string("NULL") : to_string(a)) + " and " + (b < 0 ? string("NULL") : to_string(b));
                    const R &x = u[i], &y = u[j];
                    struct { const char* op; bool got, want; } t[] = { {"<", x.operator<(y), a < b}, {">", x.operator>(y), a > b}, {"<=", x.operator<=(y), a <= b}, {">=", x.operator>=(y), a >= b}, {"==", x.operator==(y), a == b}, {"!=", x.operator!=(y), a != b} };
                    for (auto& c : t) if (c.got != c.want) violation(string("container") + c.op + " " + w, string("operator") + c.op + " of containers of " + w + " gives " + (c.got ? "true" : "false"));
                }
                res().states += u.size(); ++res().nontrivial;
            }
            // Lexemes
            vector<dfa::lexeme_container> lx; vector<string> ln; vector<string> keys;
            basic_string<int> texts[4]; texts[1].push_back('a'); texts[2].push_back('b'); texts[3].push_back('a'); texts[3].push_back('b');
            dfa::position ps[4] = { dfa::position(0, 0, 0), dfa::position(1, 0, 1), dfa::position(2, 1, 0), dfa::position(2, 0, 2) };
            lx.push_back(dfa::lexeme_container((dfa::lexeme*) NULL, true)); ln.push_back("NULL");
            for (int m = -1; m <= 1; ++m) for (int t = 0; t < 4; ++t) for (int p = 0; p < 3; ++p) { lx.push_back(dfa::lexeme_container(new dfa::lexeme(texts[t], ps[p], m), true)); ln.push_back("lexeme " + to_string(m) + "/" + to_string(t) + "/" + to_string(p)); }
            { size_t n = lx.size(); for (size_t i = 0; i < n; ++i) { lx.push_back(lx[i].item() ? dfa::lexeme_container(lx[i]->clone(), true) : lx[i]); ln.push_back(ln[i]); } }
            check_order("lexeme-order", lx, [](const dfa::lexeme_container& a, const dfa::lexeme_container& b) { return a.operator<(b); }, [&](size_t i, size_t j) { return ln[i] == ln[j]; }, ln, true);
            if (begin_case("lexeme-content", 0, "content of lexemes and their copies")) {
                for (size_t i = 0; i < lx.size(); ++i) if (lx[i].item()) {
                    dfa::lexeme c(*lx[i]); ++res().evaluations;
                    if (c.matched() != lx[i]->matched() || c.content() != lx[i]->content() || c.pos() != lx[i]->pos()) violation("copy " + ln[i], "the copy of a lexeme differs");
                    wstring w = lx[i]->content<wchar_t>(); if (w.size() != lx[i]->content().size()) violation("convert " + ln[i], "the converted content has another length");
                    for (size_t k = 0; k < w.size(); ++k) if ((int) w[k] != lx[i]->content()[k]) violation("convert " + ln[i], "the converted content differs");
                }
            }
            // Syntax tree nodes: identifiers, lexemes, and up to two children, to depth 2 (3)
            typedef util::astnode_container A;
            vector<A> nodes; vector<string> an;
            auto add = [&](util::astnode* n, const string& name) { nodes.push_back(A(n, true)); an.push_back(name); };
            dfa::lexeme_container l0(new dfa::lexeme(texts[1], ps[0], 0), true), l1(new dfa::lexeme(texts[2], ps[1], 1), true);
            nodes.push_back(A((util::astnode*) NULL, true)); an.push_back("NULL");
            add(new util::astnode(l0), "l0"); add(new util::astnode(l1), "l1");
            for (int id = 0; id < 3; ++id) add(new util::astnode(id, 0), "n" + to_string(id) + "()");
            if (begin_case("astnode-rule", 0, "tokens have no rule")) { for (int i = 1; i < 3; ++i) for (int k = 0; k < 100; ++k) { memset(alloca(256), k + 1, 256); void* mem = operator new(sizeof(util::astnode)); memset(mem, 0x41 + k % 7, sizeof(util::astnode)); util::astnode* x = new (mem) util::astnode(i == 1 ? l0 : l1); ++res().evaluations; if (x->rule() != -1) { violation("token-rule", "the node of a token has rule " + to_string(x->rule()) + " instead of -1"); k = 100; } x->~astnode(); operator delete(mem); } }
            for (int level = 0; level < (th ? 2 : 1); ++level) {
                size_t base = nodes.size(); if (level == 1) base = 40;
                for (int id = 0; id < 2; ++id) for (size_t a = 1; a < base; ++a) {
                    util::astnode* n = new util::astnode(id, 0); n->add_child(nodes[a]); add(n, "n" + to_string(id) + "(" + an[a] + ")");
                    for (size_t b = 1; b < base; ++b) { if (level == 1 && b % 5) continue; util::astnode* n = new util::astnode(id, 0); n->add_child(nodes[a]); n->add_child(nodes[b]); add(n, "n" + to_string(id) + "(" + an[a] + "," + an[b] + ")"); }
                }
            }
            // one level of nesting on a selection, and clones
            { size_t n = nodes.size(); for (size_t a = 6; a < n; a += (n > 300 ? 7 : 3)) { util::astnode* x = new util::astnode(1, 0); x->add_child(nodes[a]); x->add_child(nodes[1]); add(x, "n1(" + an[a] + ",l0)"); }
              n = nodes.size(); for (size_t a = 1; a < n; ++a) add(nodes[a]->clone(), an[a]); }
            check_order("astnode-order", nodes, [](const A& a, const A& b) { return a.operator<(b); }, [&](size_t i, size_t j) { return an[i] == an[j]; }, an, true);
            if (begin_case("astnode-content", 0, "copies of tree nodes")) {
                for (size_t i = 1; i < nodes.size(); ++i) { util::astnode* c = nodes[i]->clone(); ++res().evaluations;
                    if (c->children().size() != nodes[i]->children().size() || c->item_identifier() != nodes[i]->item_identifier() || c->lexeme().item() != nodes[i]->lexeme().item()) violation("clone " + an[i], "a clone differs");
                    size_t k = nodes[i]->children().size(); c->add_child(nodes[1]); if (nodes[i]->children().size() != k) violation("clone " + an[i], "changing a clone changes the original"); delete c; }
            }
        }
    });
}
