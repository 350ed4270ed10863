// P27: debugging pointers own what ordinary ones own, and list exactly their owners
// (built with DEBUG_SHARED_PTR: the library itself uses them)
#include "machine.hpp"
#include <pv/debugPtr.h>
#include <random>
namespace {
namespace dbg = epics::debug;
struct Std { enum { debug = 0 }; template<class T> using sp = std::shared_ptr<T>; template<class T> using wp = std::weak_ptr<T>; template<class T> using en = std::enable_shared_from_this<T>;
    template<class T, class A> static sp<T> stat(const sp<A>& p) { return std::static_pointer_cast<T>(p); } template<class T, class A> static sp<T> dyn(const sp<A>& p) { return std::dynamic_pointer_cast<T>(p); } template<class T, class A> static sp<T> cons(const sp<A>& p) { return std::const_pointer_cast<T>(p); }
    template<class T, class A> static void set(sp<T>& d, const sp<A>& s) { sp<T>(s).swap(d); } };
struct Dbg { enum { debug = 1 }; template<class T> using sp = dbg::shared_ptr<T>; template<class T> using wp = dbg::weak_ptr<T>; template<class T> using en = dbg::enable_shared_from_this<T>;
    template<class T, class A> static sp<T> stat(const sp<A>& p) { return dbg::static_pointer_cast<T>(p); } template<class T, class A> static sp<T> dyn(const sp<A>& p) { return dbg::dynamic_pointer_cast<T>(p); } template<class T, class A> static sp<T> cons(const sp<A>& p) { return dbg::const_pointer_cast<T>(p); }
    template<class T, class A> static void set(sp<T>& d, const sp<A>& s) { d = s; } };
struct Seen { string log; };
// objects know their number; copies are objects of their own
template<class F> struct Base; template<class F> struct Node;
template<class F> struct Reg { std::map<int, Node<F>*> nodes; std::ostringstream log; int next = 0; };
template<class F> struct Base { Reg<F>* r; int id; explicit Base(Reg<F>* r) : r(r), id(r->next++) {} Base(const Base& o) : r(o.r), id(r->next++) {} Base& operator=(const Base&) { return *this; } virtual ~Base() { r->log << "~" << id << " "; } };
template<class F> struct Second { int mark = 7; virtual ~Second() {} };
template<class F> struct Multi : public Base<F>, public Second<F> { explicit Multi(Reg<F>* r) : Base<F>(r) {} };
template<class F> struct Node : public Base<F>, public F::template en<Node<F> > { typename F::template sp<Node> next; typename F::template sp<Base<F> > other; explicit Node(Reg<F>* r) : Base<F>(r) { r->nodes[this->id] = this; } Node(const Node& o) : Base<F>(o), F::template en<Node<F> >(o) { this->r->nodes[this->id] = this; } Node& operator=(const Node& o) { Base<F>::operator=(o); F::template en<Node<F> >::operator=(o); return *this; } ~Node() { this->r->nodes.erase(this->id); } };
template<class F> struct Del { Reg<F>* r; int tag; bool del; template<class T> void operator()(T* p) const { r->log << "D" << tag << (p ? "" : "null") << " "; if(del) delete p; } };
struct PS { int op, a, b, c, x; };
const int NB = 4, NC = 2, NM = 3, N2 = 2, NN = 3, NW = 3;
struct Owner { const void* at; int group; bool null; };
template<class F> struct World {
    template<class T> using sp = typename F::template sp<T>; template<class T> using wp = typename F::template wp<T>;
    typedef Base<F> B; typedef Multi<F> M; typedef Second<F> S; typedef Node<F> N;
    Reg<F> r; B fixed; sp<B> b[NB]; sp<const B> cb[NC]; sp<M> m[NM]; sp<S> s[N2]; sp<N> n[NN]; wp<B> wb[NW]; wp<N> wn[NW]; wp<M> wm;
    World() : fixed(&r) {}
    ~World() { drop(); while(!r.nodes.empty()) { N* p = r.nodes.begin()->second; for(auto& k : r.nodes) if(k.second->next || k.second->other) { p = k.second; break; } if(p->next) p->next.reset(); else if(p->other) p->other.reset(); else break; } }
    void drop() { for(auto& x : b) x.reset(); for(auto& x : cb) x.reset(); for(auto& x : m) x.reset(); for(auto& x : s) x.reset(); for(auto& x : n) x.reset(); for(auto& x : wb) x.reset(); for(auto& x : wn) x.reset(); wm.reset(); }
    N* nth(int i) { if(r.nodes.empty()) return 0; auto it = r.nodes.begin(); std::advance(it, i % r.nodes.size()); return it->second; }
    void op(const PS& o) {
        sp<B>& B1 = b[o.a % NB]; sp<B>& B2 = b[o.b % NB]; sp<M>& M1 = m[o.a % NM]; sp<M>& M2 = m[o.b % NM]; sp<S>& S1 = s[o.a % N2]; sp<N>& N1 = n[o.a % NN]; sp<N>& N2_ = n[o.b % NN]; sp<const B>& C1 = cb[o.a % NC]; wp<B>& W1 = wb[o.a % NW]; wp<B>& W2 = wb[o.b % NW]; wp<N>& V1 = wn[o.a % NW];
        switch(o.op) {
        case 0: switch(o.x % 6) { case 0: B1.reset(new B(&r)); break; case 1: F::set(B1, sp<B>(new M(&r))); break; case 2: M1.reset(new M(&r)); break; case 3: N1.reset(new N(&r)); break; case 4: B1.reset(new N(&r)); break; default: C1.reset(new B(&r)); } break;
        case 1: switch(o.x % 5) { case 0: B1.reset(new B(&r), Del<F>{&r, o.c, true}); break; case 1: B1.reset(&fixed, Del<F>{&r, o.c, false}); break; case 2: F::set(N1, sp<N>(new N(&r), Del<F>{&r, o.c, true})); break; case 3: C1.reset(&fixed, Del<F>{&r, o.c, false}); break; default: B1.reset((B*)0, Del<F>{&r, o.c, false}); } break;
        case 2: switch(o.x % 6) { case 0: F::set(B1, sp<B>(std::unique_ptr<B>(new B(&r)))); break; case 1: F::set(B1, sp<B>(std::unique_ptr<M>(new M(&r)))); break; case 2: F::set(N1, sp<N>(std::unique_ptr<N>(new N(&r)))); break; case 3: F::set(B1, sp<B>(std::unique_ptr<B>())); break; case 4: F::set(B1, sp<B>(std::unique_ptr<N>(new N(&r)))); break; default: F::set(N1, sp<N>((N*)0)); } break;
        case 3: switch(o.x % 6) { case 0: F::set(B1, B2); break; case 1: F::set(M1, M2); break; case 2: F::set(N1, N2_); break; case 3: F::set(C1, cb[o.b % NC]); break; case 4: F::set(S1, s[o.b % N2]); break; default: { sp<B> t(B2), u(t); B1.reset(); F::set(B1, u); } } break;
        case 4: switch(o.x % 6) { case 0: F::set(B1, M2); break; case 1: F::set(S1, M2); break; case 2: F::set(B1, N2_); break; case 3: F::set(C1, B2); break; case 4: F::set(C1, M2); break; default: { sp<const B> t(N2_); F::set(C1, t); } } break;
        case 5: switch(o.x % 6) { case 0: B1.reset(); break; case 1: M1.reset(); break; case 2: N1.reset(); break; case 3: F::set(B1, sp<B>()); break; case 4: S1.reset(); break; default: C1.reset(); } break;
        case 6: switch(o.x % 4) { case 0: B1.swap(B2); break; case 1: M1.swap(M2); break; case 2: N1.swap(N2_); break; default: { sp<B> t(B1); t.swap(B2); } } break;
        case 7: switch(o.x % 9) { case 0: F::set(M1, F::template dyn<M>(B2)); break; case 1: F::set(N1, F::template dyn<N>(B2)); break; case 2: F::set(S1, F::template dyn<S>(B2)); break; case 3: F::set(B1, F::template dyn<B>(s[o.b % N2])); break; case 4: F::set(B1, F::template cons<B>(cb[o.b % NC])); break; case 5: F::set(B1, F::template stat<B>(M2)); break; case 6: if(dynamic_cast<M*>(B2.get())) F::set(M1, F::template stat<M>(B2)); break; case 7: F::set(C1, F::template cons<const B>(B2)); break; default: F::set(M1, F::template dyn<M>(s[o.b % N2])); } break;
        case 8: switch(o.x % 8) { case 0: W1 = B2; break; case 1: W1 = W2; break; case 2: W1 = M2; break; case 3: V1 = N2_; break; case 4: W1 = wp<B>(wn[o.b % NW]); break; case 5: wm = M2; break; case 6: W1 = wp<B>(wm); break; default: W1.reset(); } break;
        case 9: switch(o.x % 6) { case 0: F::set(B1, W2.lock()); break; case 1: F::set(N1, wn[o.b % NW].lock()); break; case 2: F::set(B1, sp<B>(W2)); break; case 3: F::set(N1, sp<N>(wn[o.b % NW])); break; case 4: F::set(B1, sp<B>(wm)); break; default: { sp<B> t(W2.lock()); if(t) F::set(C1, t); } } break;
        case 10: if(N1) switch(o.x % 6) { case 0: F::set(N1->next, N2_); break; case 1: F::set(N1, N1->next); break; case 2: N1->next.reset(); break; case 3: F::set(N1->other, B2); break; case 4: F::set(B1, N1->other); break; default: N1->next.swap(N2_); } break;
        case 11: if(N* p = nth(o.c)) switch(o.x % 6) { case 0: p->next.reset(); break; case 1: F::set(p->next, N2_); break; case 2: F::set(p->other, M2); break; case 3: p->other.reset(); break; case 4: if(p->next) { N* q = p->next.get(); F::set(p->next, q->next); } break; default: p->next.reset(new N(&r)); } break;
        case 12: if(N* p = nth(o.c)) switch(o.x % 4) { case 0: F::set(N1, p->shared_from_this()); break; case 1: { N q(*p); F::set(N1, q.shared_from_this()); break; } case 2: if(N* q = nth(o.b)) *p = *q; break; default: F::set(N1, sp<N>(new N(*p))); } break;
        }
    }
    template<class T> void one(std::ostream& o, const char* what, const sp<T>& p, int id) { o << what << "=" << id << "/" << p.use_count() << (p ? "" : "-") << (p.unique() ? "u" : "") << " "; }
    string state() {
        std::ostringstream o; o << r.log.str() << "| "; auto id = [](const B* p) { return p ? p->id : -1; };
        for(auto& x : b) one(o, "b", x, id(x.get())); for(auto& x : cb) one(o, "c", x, x ? x->id : -1); for(auto& x : m) one(o, "m", x, id(x.get())); for(auto& x : s) one(o, "s", x, x ? (x->mark == 7 ? id(dynamic_cast<B*>(x.get())) : -9) : -1); for(auto& x : n) one(o, "n", x, id(x.get()));
        for(auto& x : wb) o << "w" << x.use_count() << (x.expired() ? "e" : "") << " "; for(auto& x : wn) o << "v" << x.use_count() << (x.expired() ? "e" : "") << " "; o << "y" << wm.use_count() << " ";
        for(auto& k : r.nodes) { o << "[" << k.first << ": "; one(o, "next", k.second->next, id(k.second->next.get())); one(o, "other", k.second->other, id(k.second->other.get())); o << "] "; }
        for(int i = 0; i < NB; i++) for(int j = 0; j < NB; j++) if(b[i].get() == b[j].get()) o << i << "=" << j << (b[i] == b[j]) << (b[i] != b[j]) << (b[i] < b[j]) << " ";
        return o.str();
    }
};
typedef std::vector<const dbg::shared_ptr_base*> Ptrs;
// every strong pointer, in one order for both worlds
template<class F, class Fn> void each(World<F>& w, Fn f) { for(auto& x : w.b) f(x); for(auto& x : w.cb) f(x); for(auto& x : w.m) f(x); for(auto& x : w.s) f(x); for(auto& x : w.n) f(x); for(auto& k : w.r.nodes) { f(k.second->next); f(k.second->other); } }
string refsOf(const dbg::ptr_base& p) { dbg::ptr_base::ref_set_t r; p.spy_refs(r); std::ostringstream o; for(auto x : r) o << (const void*)x << " "; return o.str(); }
string shown(const dbg::ptr_base& p, bool self, const void* me) {
    std::ostringstream o; p.show_refs(o, self); std::istringstream in(o.str()); string line; std::set<const dbg::shared_ptr_base*> got; while(std::getline(in, line)) { if(line == "# No refs") { if(o.str() != "# No refs\n") return "mixed: " + o.str(); continue; } if(line.substr(0, 5) != "#ptr ") return "line '" + line + "'"; std::istringstream l(line.substr(5)); void* q = 0; l >> q; if(!got.insert((const dbg::shared_ptr_base*)q).second) return "twice: " + line; }
    if((o.flags() & std::ios::basefield) != std::ios::dec) return "stream left in another base";
    dbg::ptr_base::ref_set_t r; p.spy_refs(r); if(!self) r.erase((const dbg::shared_ptr_base*)me); return r == got ? "" : "show_refs(self=" + std::to_string(self) + ") prints " + std::to_string(got.size()) + " pointers, spy_refs() has " + std::to_string(r.size());
}
void checkRefs(World<Std>& s, World<Dbg>& d) {
    // who owns with whom, judged by the ordinary pointers
    vector<std::shared_ptr<const void> > own; each(s, [&](auto& p) { own.push_back(p ? std::shared_ptr<const void>(p) : std::shared_ptr<const void>()); }); Ptrs at; vector<const dbg::ptr_base*> ats; each(d, [&](auto& p) { at.push_back(&p); });
    CHECK_EQ(at.size(), own.size(), "pointers", "");
    auto same = [](const std::shared_ptr<const void>& a, const std::shared_ptr<const void>& b) { return a && b && !a.owner_before(b) && !b.owner_before(a); };
    size_t i = 0; each(d, [&](auto& p) { dbg::ptr_base::ref_set_t want, got; for(size_t j = 0; j < own.size(); j++) if(same(own[i], own[j])) want.insert(at[j]); p.spy_refs(got);
        if(got != want) { std::ostringstream o; o << "pointer " << i << " lists " << got.size() << " owners, there are " << want.size(); FAIL("owners", o.str()); }
        if(p) CHECK_EQ((long)got.size(), (long)p.use_count(), "count", "owners listed and use_count()");
        string e = shown(p, true, &p); CHECK(e.empty(), "show", e); e = shown(p, false, &p); CHECK(e.empty(), "show", e); i++; });
    auto weak = [&](auto& sw, auto& dw) { std::shared_ptr<const void> k = sw.lock(); dbg::ptr_base::ref_set_t want, got; for(size_t j = 0; j < own.size(); j++) if(same(k, own[j])) want.insert(at[j]); dw.spy_refs(got); if(got != want) FAIL("weak_owners", "a weak pointer lists " + std::to_string(got.size()) + " owners, there are " + std::to_string(want.size())); };
    for(int j = 0; j < NW; j++) { weak(s.wb[j], d.wb[j]); weak(s.wn[j], d.wn[j]); } weak(s.wm, d.wm);
}
PBT_TEST(histories, 40000, 1200000) {
    World<Std> s; World<Dbg> d; int steps = 1 + c.u(30), did = 0; int maxo = 0;
    for(int i = 0; i < steps; i++) { PS o; o.op = c.weighted({ 5, 2, 2, 4, 3, 2, 3, 4, 3, 4, 4, 3, 2 }); o.a = c.u(4); o.b = c.u(4); o.c = c.u(20); o.x = c.u(720); c.desc << o.op << "." << o.x % 72 << "(" << o.a << "," << o.b << "," << o.c << ") ";
        string es, ed; try { s.op(o); } catch(std::bad_weak_ptr&) { es = "bad_weak_ptr"; } try { d.op(o); } catch(std::bad_weak_ptr&) { ed = "bad_weak_ptr"; } catch(std::exception& e) { ed = e.what(); }
        CHECK_EQ(ed, es, "refused", "operation " + std::to_string(o.op) + "." + std::to_string(o.x)); string a = s.state(), b = d.state(); if(a != b) FAIL("state", "after operation " + std::to_string(o.op) + "." + std::to_string(o.x) + "\n ordinary:  " + a + "\n debugging: " + b); checkRefs(s, d); did++; for(auto& p : s.b) maxo = std::max(maxo, (int)p.use_count()); }
    s.drop(); d.drop(); string a = s.state(), b = d.state(); CHECK_EQ(b, a, "drop", "after dropping all");
    if(maxo > 2) c.label("three owners"); c.nontrivial(did > 5 && maxo > 1);
}
// copies made and dropped by several threads
PBT_RACY(threads, 300, 6000) {
    int nt = 2 + c.u(3), rounds = 20 + c.u(200); unsigned seed = c.u(1000000); c.desc << nt << " threads, " << rounds << " rounds, seed " << seed; c.nontrivial(true);
    struct Obj : public dbg::enable_shared_from_this<Obj> { std::atomic<int>* alive; explicit Obj(std::atomic<int>* a) : alive(a) { ++*alive; } ~Obj() { --*alive; } };
    std::atomic<int> alive{0}; std::atomic<bool> go{false}; std::atomic<int> bad{0}; { dbg::shared_ptr<Obj> main(new Obj(&alive)); dbg::weak_ptr<Obj> weak(main); vector<std::thread> t; vector<dbg::shared_ptr<Obj> > kept(nt);
        for(int i = 0; i < nt; i++) t.emplace_back([&, i] { std::mt19937 r(seed + i); vector<dbg::shared_ptr<Obj> > mine(4); dbg::weak_ptr<Obj> w(weak); while(!go) {} for(int k = 0; k < rounds; k++) { auto& x = mine[r() % 4]; auto& y = mine[r() % 4]; switch(r() % 7) { case 0: x = main; break; case 1: x = y; break; case 2: x.reset(); break; case 3: x.swap(y); break; case 4: x = w.lock(); if(!x) bad++; break; case 5: x = main->shared_from_this(); break; default: { dbg::ptr_base::ref_set_t s; main.spy_refs(s); if(!s.count(&main)) bad++; if(x && !s.count(&x)) bad++; std::ostringstream o; x.show_refs(o); if(x && o.str() == "# No refs\n") bad++; } } } kept[i] = mine[0]; });
        go = true; for(auto& x : t) x.join();
        CHECK_EQ(bad.load(), 0, "threads", "an owner not listed, or not lockable"); dbg::ptr_base::ref_set_t s, want; main.spy_refs(s); want.insert(&main); for(auto& k : kept) if(k) want.insert(&k); CHECK(s == want, "threads", "owners listed after all: " + std::to_string(s.size()) + ", there are " + std::to_string(want.size())); CHECK_EQ(main.use_count(), (long)want.size(), "threads", "use_count"); CHECK_EQ(alive.load(), 1, "threads", "alive"); }
    CHECK_EQ(alive.load(), 0, "threads", "objects alive after all");
}
// the library built with them: every pointer to a type or value is listed by what it points to
template<class P> void listed(const P& p, const char* what) { dbg::ptr_base::ref_set_t r; p.spy_refs(r); if(!p) { CHECK(r.empty(), "library_null", what); return; } if(!r.count(&p)) FAIL("library_owner", string("a pointer to a ") + what + " is not listed"); CHECK_EQ((long)r.size(), (long)p.use_count(), "library_count", string("owners listed and use_count() of a ") + what); }
void walkType(const FieldConstPtr& f, int depth = 0) { listed(f, "type"); if(!f || depth > 6) return; switch(f->getType()) { case structure: { auto& k = static_cast<const Structure&>(*f).getFields(); for(auto& x : k) walkType(x, depth + 1); break; } case union_: { auto& k = static_cast<const Union&>(*f).getFields(); for(auto& x : k) walkType(x, depth + 1); break; } case structureArray: { StructureConstPtr s = static_cast<const StructureArray&>(*f).getStructure(); walkType(s, depth + 1); break; } case unionArray: { UnionConstPtr s = static_cast<const UnionArray&>(*f).getUnion(); walkType(s, depth + 1); break; } default: break; } }
void walk(const PVFieldPtr& v, int depth = 0) { listed(v, "value"); if(!v || depth > 6) return; walkType(v->getField(), depth); PVField& f = *v; if(PVStructure* s = dynamic_cast<PVStructure*>(&f)) { for(auto& x : s->getPVFields()) { if(x->getParent() != s) FAIL("library_parent", "the parent of a field of a structure"); walk(x, depth + 1); } } else if(PVUnion* u = dynamic_cast<PVUnion*>(&f)) { PVFieldPtr k = u->get(); walk(k, depth + 1); } else if(PVStructureArray* a = dynamic_cast<PVStructureArray*>(&f)) { PVStructureArray::const_svector w(a->view()); for(auto& x : w) walk(x, depth + 1); } else if(PVUnionArray* a = dynamic_cast<PVUnionArray*>(&f)) { PVUnionArray::const_svector w(a->view()); for(auto& x : w) walk(x, depth + 1); } }
PBT_TEST(library, 5000, 100000) {
    vector<Step> p = program(c); Machine* now = 0; auto go = [&](bool look) { Machine m(false); now = &m; if(look) m.after = [&]() { for(auto& x : now->h) { listed(x.f, "type"); if(x.f) walkType(x.f); listed(x.v, "value"); if(x.v) walk(x.v); listed(x.fb, "builder"); listed(x.rq, "request"); } }; m.run(p); if(!m.badKey.empty()) FAIL("library_" + m.badKey, m.bad); };
    go(true); long left = 0; for(int i = 0; i < 3; i++) { long a = pbt::liveAllocs(); go(false); left = pbt::liveAllocs() - a; if(left == 0) break; } CHECK_EQ(left, 0, "library_leak", "blocks left behind"); c.nontrivial(p.size() > 4);
}
}
