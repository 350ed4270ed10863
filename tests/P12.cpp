// P12: shared_vector handles over shared storage, against a model with explicit storage objects
#include "gen_pvd.hpp"
#include <pv/sharedVector.h>
#include <algorithm>
using namespace epics::pvData; using pbt::Ctx;
namespace {
typedef std::tr1::shared_ptr<int> ptr_t;
template<class E> struct Gen; // fresh values, never equal to each other unless wanted
template<> struct Gen<int32> { static int32 make(Ctx& c, int k) { return c.chance(1, 6) ? c.oneOf<int32>({ 0, -1, 7 }) : k * 10 + 1; } static std::string show(int32 v) { std::ostringstream o; o << v; return o.str(); } };
template<> struct Gen<double> { static double make(Ctx& c, int k) { return c.chance(1, 6) ? 0.5 : k + 0.25; } static std::string show(double v) { std::ostringstream o; o << v; return o.str(); } };
template<> struct Gen<std::string> { static std::string make(Ctx& c, int k) { std::ostringstream o; o << k; std::string s(o.str()); return c.chance(1, 4) ? std::string(40, 'x') + s : c.chance(1, 8) ? "" : "s" + s; } static std::string show(const std::string& s) { return s; } };
template<> struct Gen<ptr_t> { static ptr_t make(Ctx& c, int k) { return c.chance(1, 6) ? ptr_t() : ptr_t(new int(k)); } static std::string show(const ptr_t& p) { std::ostringstream o; if(p) o << *p; else o << "null"; return o.str(); } };

struct Freed { std::tr1::shared_ptr<int> n; explicit Freed(const std::tr1::shared_ptr<int>& n_) : n(n_) {} template<class E> void operator()(E* p) { ++*n; delete[] p; } };

template<class E> struct Sto { std::vector<E> el; std::tr1::shared_ptr<int> freed; bool external = false; };
template<class E> struct Model { std::shared_ptr<Sto<E> > s; size_t off = 0, cnt = 0, total = 0; void reset() { s.reset(); off = cnt = total = 0; } };
template<class E> struct Slot { bool konst = false; shared_vector<E> m; shared_vector<const E> k; shared_vector<void> vm; Model<E> M; };

template<class E> struct World {
    typedef shared_vector<E> V; typedef shared_vector<const E> C;
    Ctx& c; std::vector<Slot<E> > h; int fresh = 0; std::vector<std::tr1::shared_ptr<int> > ext;
    explicit World(Ctx& c_) : c(c_), h(5) { for(size_t i = 0; i < h.size(); i++) h[i].konst = i >= 3; }
    E val() { return Gen<E>::make(c, ++fresh); }
    bool uniq(const Slot<E>& s) { if(!s.M.s) return true; size_t n = 0; for(auto& o : h) n += o.M.s == s.M.s; return n <= 1; }
    std::vector<E> own(const Slot<E>& s) { std::vector<E> r; if(s.M.s) r.assign(s.M.s->el.begin() + s.M.off, s.M.s->el.begin() + s.M.off + s.M.cnt); return r; }
    static std::string list(const std::vector<E>& v) { std::string r; for(auto& e : v) r += Gen<E>::show(e) + " "; return r; }
    template<class W> void look(const W& w, Slot<E>& s, const std::string& op, size_t i) {
        const Model<E>& M = s.M; std::vector<E> want = own(s);
        std::ostringstream o; o << op << ", handle " << i;
        CHECK_EQ(w.size(), M.cnt, "size", o.str()); CHECK_EQ(w.empty(), M.cnt == 0, "empty", o.str()); CHECK_EQ(w.unique(), uniq(s), "unique", o.str()); CHECK_EQ(w.capacity(), M.total, "capacity", o.str()); CHECK(w.dataCount() == w.size() && w.dataTotal() == w.capacity() && w.dataCount() <= w.dataTotal(), "data-accessors", o.str());
        CHECK(w.max_size() >= w.capacity(), "max_size", o.str());
        std::vector<E> got(w.begin(), w.end()); CHECK(got == want, "elements", o.str() << ": " << list(got) << " instead of " << list(want));
        got.assign(w.cbegin(), w.cend()); CHECK(got == want, "elements", o.str()); got.assign(w.rbegin(), w.rend()); std::reverse(got.begin(), got.end()); CHECK(got == want, "reverse", o.str()); got.assign(w.crbegin(), w.crend()); std::reverse(got.begin(), got.end()); CHECK(got == want, "reverse", o.str());
        for(size_t k = 0; k < M.cnt; k++) CHECK(w[k] == want[k] && w.at(k) == want[k] && w.data()[k] == want[k] && &w[k] == w.data() + k && &w[k] == w.dataPtr().get() + w.dataOffset() + k, "access", o.str());
        for(size_t k : { M.cnt, M.cnt + 1, M.cnt + 100, (size_t)-1 }) { bool th = false; try { (void)w.at(k); } catch(std::out_of_range&) { th = true; } CHECK(th, "at-past-end", o.str() << " at(" << k << ") of " << M.cnt); }
        if(M.cnt) CHECK(w.front() == want.front() && w.back() == want.back(), "front-back", o.str());
    }
    void checkAll(const std::string& op) {
        for(size_t i = 0; i < h.size(); i++) if(h[i].konst) look(h[i].k, h[i], op, i); else look(h[i].m, h[i], op, i);
        for(size_t i = 0; i < h.size(); i++) for(size_t j = 0; j < h.size(); j++) {
            bool want = own(h[i]) == own(h[j]); bool g = h[i].konst ? (h[j].konst ? h[i].k == h[j].k : h[i].k == h[j].m) : (h[j].konst ? h[i].m == h[j].k : h[i].m == h[j].m), ne = h[i].konst ? (h[j].konst ? h[i].k != h[j].k : h[i].k != h[j].m) : (h[j].konst ? h[i].m != h[j].k : h[i].m != h[j].m);
            CHECK_EQ(g, want, "equality", op << ", handles " << i << " and " << j); CHECK_EQ(ne, !want, "equality", op << ", handles " << i << " and " << j);
            if(h[i].M.s && h[i].M.s == h[j].M.s) { const E *a = h[i].konst ? h[i].k.dataPtr().get() : h[i].m.dataPtr().get(), *b = h[j].konst ? h[j].k.dataPtr().get() : h[j].m.dataPtr().get(); CHECK(a == b, "shared-storage", op); }
        }
        for(auto& e : ext) { bool used = false; for(auto& s : h) used |= s.M.s && s.M.s->freed == e; CHECK_EQ(*e, used ? 0 : 1, "storage-freed", op << ": external storage"); }
    }
    void take(Slot<E>& s, const std::vector<E>& v, size_t total) { s.M.s.reset(new Sto<E>()); s.M.s->el = v; s.M.s->el.resize(total); s.M.off = 0; s.M.cnt = v.size(); s.M.total = total; }
    void construct(Slot<E>& s, std::string& op) {
        std::vector<E> v; size_t n = c.u(7); for(size_t i = 0; i < n; i++) v.push_back(val()); V nv; size_t off = 0, extra = 0; std::tr1::shared_ptr<int> f;
        switch(c.u(8)) {
        case 0: { V x(n); std::copy(v.begin(), v.end(), x.begin()); nv = x; op = "sized"; break; }
        case 1: { E e = val(); nv = V(n, e); v.assign(n, e); op = "filled"; break; }
        case 2: { off = c.u(3); E* p = new E[off + n + 1]; std::copy(v.begin(), v.end(), p + off); nv = V(p, off, n); op = "raw"; break; }
        case 3: { off = c.u(3); E* p = new E[off + n + 1]; std::copy(v.begin(), v.end(), p + off); f.reset(new int(0)); ext.push_back(f); nv = V(p, Freed(f), off, n); op = "raw with deleter"; break; }
        case 4: { off = c.u(3); E* p = new E[off + n + 1]; std::copy(v.begin(), v.end(), p + off); f.reset(new int(0)); ext.push_back(f); { std::tr1::shared_ptr<E> sp(p, Freed(f)); nv = V(sp, off, n); } op = "shared_ptr"; break; }
        case 5: { V x; for(auto& e : v) x.push_back(e); nv = x; op = "appended"; extra = nv.capacity() - n; break; }
        case 6: { if(n < 2) { nv = V{ E() }; v.assign(1, E()); } else { v.resize(2); nv = V{ v[0], v[1] }; } op = "list"; break; }
        default: { V none(std::tr1::shared_ptr<E>(), c.u(4), c.u(4)); nv = none; v.clear(); op = "null"; break; }
        }
        if(op == "null") { s.M.reset(); } else { take(s, v, v.size() + extra); if(!nv.dataPtr()) s.M.reset(); else { s.M.s->freed = f; s.M.s->el.insert(s.M.s->el.begin(), off, E()); s.M.off = off; } }
        if(s.konst) { s.k.clear(); s.k = freeze(nv); CHECK(nv.size() == 0 && !nv.dataPtr() && nv.capacity() == 0, "freeze-source", "not cleared"); } else s.m = nv;
        op = "construct " + op;
    }
    void step() {
        size_t i = c.u(h.size()), j = c.u(h.size()); Slot<E>& s = h[i]; Slot<E>& o = h[j]; std::ostringstream d; std::string op;
        size_t oldcap = s.M.total; bool wasUnique = uniq(s); (void)oldcap; const E* oldp = s.konst ? s.k.dataPtr().get() : s.m.dataPtr().get();
        switch(c.weighted({ 3, 5, 4, 2, 4, 4, 3, 4, 2, 4, 4, 2, 1, 2, 2, 2 })) {
        case 0: construct(s, op); d << op; break;
        case 1: { // share, same constness
            if(s.konst != o.konst) { // through thaw/freeze of a copy
                if(s.konst) { V x(o.m); bool th = false; try { C y = freeze(x); if(o.M.s) th = false; else { s.k = y; s.M.reset(); d << "freeze of nothing"; break; } } catch(std::runtime_error&) { th = true; } CHECK_EQ(th, (bool)o.M.s, "freeze-shared", "freezing a shared vector"); CHECK(x == o.m && x.dataPtr() == o.m.dataPtr(), "refused-freeze-changed", ""); d << "freeze of a shared copy refused"; }
                else { C x(o.k); std::vector<E> v = own(o); s.m = thaw(x); CHECK(!x.dataPtr() && x.size() == 0 && x.capacity() == 0, "thaw-source", "not cleared"); CHECK(s.m.unique(), "thaw-not-unique", ""); CHECK(!o.M.s || s.m.dataPtr().get() != o.k.dataPtr().get(), "thaw-shares", "mutable handle on frozen storage"); if(o.M.s) { CHECK(s.m.capacity() >= v.size(), "capacity", "thaw"); take(s, v, s.m.capacity()); } else s.M.reset(); d << "thaw of a shared copy"; }
                break; }
            if(s.konst) { if(c.coin()) s.k = o.k; else { C x(o.k); s.k.swap(x); } } else { switch(c.u(3)) { case 0: s.m = o.m; break; case 1: { V x(o.m); s.m.swap(x); break; } default: { V x(o.m); s.m = std::move(x); if(i != j) CHECK(!x.dataPtr() && x.empty() && !x.capacity(), "move-source", "not emptied"); } } }
            s.M = o.M; d << "copy of " << j; break; }
        case 2: { size_t off = c.weighted({ 3, 1, 1 }) ? c.oneOf<size_t>({ s.M.cnt, s.M.cnt + 1, (size_t)-1 }) : c.u(s.M.cnt + 1), len = c.weighted({ 3, 1, 1 }) ? c.oneOf<size_t>({ (size_t)-1, s.M.cnt, (size_t)-2 }) : c.u(s.M.cnt + 2);
            if(s.konst) s.k.slice(off, len); else s.m.slice(off, len);
            size_t x = std::min(off, s.M.cnt); s.M.off += x; s.M.total -= x; s.M.cnt = std::min(len, s.M.cnt - x); d << "slice " << (ptrdiff_t)off << "," << (ptrdiff_t)len; break; }
        case 3: { // make_unique
            if(s.konst) s.k.make_unique(); else s.m.make_unique(); if(!wasUnique) realloc(s, s.M.total, "make_unique"); else same(s, oldp, "make_unique"); d << "make_unique"; break; }
        case 4: { size_t n = c.coin() ? c.u(12) : s.M.cnt + c.u(3); bool keep = wasUnique && n <= s.M.total; if(s.konst) s.k.reserve(n); else s.m.reserve(n); if(keep) same(s, oldp, "reserve"); else realloc(s, n, "reserve"); d << "reserve " << n; break; }
        case 5: { size_t n = c.chance(1, 5) ? s.M.total : c.u(10); if(s.konst && n > s.M.cnt) n = s.M.cnt; bool fill = !s.konst && c.coin(); E e = val(); size_t old = s.M.cnt; bool keep = n == old ? wasUnique : (s.M.s && wasUnique && n <= s.M.total);
            // filling with one of its own elements
            if(s.konst) s.k.resize(n); else if(fill && old && c.chance(1, 5)) { size_t w = c.u(old); e = s.m[w]; s.m.resize(n, s.m[w]); d << "own "; } else if(fill) s.m.resize(n, e); else s.m.resize(n);
            size_t kept = std::min(old, n); if(keep) same(s, oldp, "resize"); else { s.M.cnt = kept; realloc(s, n, "resize"); } 
            s.M.cnt = n; if(s.M.s) for(size_t k = kept; k < n; k++) { if(!fill) { e = val(); s.m[k] = e; } s.M.s->el[s.M.off + k] = e; } d << "resize " << n << (fill ? " filled" : ""); break; }
        case 6: if(!s.konst) { E e = val(); size_t n = s.M.cnt; bool keep = s.M.s && wasUnique && n < s.M.total; if(n && c.chance(1, 4)) { size_t w = c.u(n); e = s.m[w]; s.m.push_back(s.m[w]); d << "own "; } else s.m.push_back(e); if(keep) same(s, oldp, "push_back"); else realloc(s, n + 1, "push_back"); s.M.cnt = n + 1; s.M.s->el[s.M.off + n] = e; d << "push_back"; } else d << "-"; break;
        case 7: if(!s.konst && s.M.cnt) { size_t k = c.u(s.M.cnt); E e = val(); switch(c.u(6)) { case 0: s.m[k] = e; break; case 1: s.m.at(k) = e; break; case 2: *(s.m.begin() + k) = e; break; case 3: s.m.data()[k] = e; break; case 4: s.m.front() = e; k = 0; break; default: s.m.back() = e; k = s.M.cnt - 1; } s.M.s->el[s.M.off + k] = e; d << "write [" << k << "]"; } else d << "-"; break;
        case 8: if(s.M.cnt) { if(s.konst) s.k.pop_back(); else s.m.pop_back(); s.M.cnt--; d << "pop_back"; } else d << "-"; break;
        case 9: { // freeze i (mutable) into a constant slot
            if(s.konst) { d << "-"; break; } size_t t = 3 + c.u(2); if(wasUnique) { h[t].k = c.coin() ? freeze(s.m) : const_shared_vector_cast<const E>(s.m); CHECK(!s.m.dataPtr() && s.m.size() == 0 && s.m.capacity() == 0, "freeze-source", "not cleared"); CHECK(h[t].k.dataPtr().get() == oldp, "freeze-copied", ""); h[t].M = s.M; s.M.reset(); d << "freeze into " << t; }
            else { bool th = false; try { C x = freeze(s.m); } catch(std::runtime_error&) { th = true; } CHECK(th, "freeze-shared", "freezing a shared vector was not refused"); d << "freeze refused"; c.label("freeze refused"); } break; }
        case 10: { if(!s.konst) { d << "-"; break; } size_t t = c.u(3); std::vector<E> v = own(s); c.cover(!wasUnique && s.M.off, "thaw of a shared slice"); size_t tot = s.M.total; h[t].m = c.coin() ? thaw(s.k) : const_shared_vector_cast<E>(s.k); CHECK(!s.k.dataPtr() && s.k.size() == 0 && s.k.capacity() == 0, "thaw-source", "not cleared"); CHECK(h[t].m.unique(), "thaw-not-unique", "");
            if(wasUnique) { CHECK(h[t].m.dataPtr().get() == oldp, "thaw-copied", "a unique vector was copied"); h[t].M = s.M; } else { (void)tot; CHECK(h[t].m.dataPtr().get() != oldp, "thaw-shares", "mutable handle on frozen storage"); take(h[t], v, std::max(v.size(), h[t].m.capacity())); CHECK_EQ(h[t].m.capacity(), h[t].M.total, "capacity", "thaw"); }
            s.M.reset(); d << "thaw into " << t; break; }
        case 11: if(s.konst) s.k.clear(); else s.m.clear(); s.M.reset(); d << "clear"; break;
        case 12: { if(s.konst != o.konst) { d << "-"; break; } if(s.konst) s.k.swap(o.k); else s.m.swap(o.m); if(i != j) std::swap(s.M, o.M); d << "swap with " << j; break; }
        case 13: { if(s.konst != o.konst) { d << "-"; break; } if(s.konst) s.k = const_shared_vector_cast<const E>(o.k); else { V x(const_shared_vector_cast<E>(o.m)); s.m = x; } s.M = o.M; if(i != j) o.M.reset(); d << "const cast (same) of " << j; break; }
        case 14: voidTrip(s, d); break;
        default: { std::ostringstream a, b; std::vector<E> v = own(s); if(s.konst) a << s.k; else a << s.m; b << '{' << v.size() << "}["; for(size_t k = 0; k < v.size(); k++) { if(k > 10) { b << "..."; break; } b << v[k]; if(k + 1 < v.size()) b << ", "; } b << ']'; CHECK_EQ(a.str(), b.str(), "printed", ""); d << "print"; }
        }
        c.desc << "; " << i << (s.konst ? "c" : "") << " " << d.str(); checkAll(d.str());
    }
    // s got private storage with at least n elements of room
    void realloc(Slot<E>& s, size_t n, const char* op) {
        size_t cap = s.konst ? s.k.capacity() : s.m.capacity(); CHECK(cap >= n && cap >= s.M.cnt, "capacity", op << ": " << cap << " < " << n << " for " << s.M.cnt << " elements");
        std::tr1::shared_ptr<int> none; take(s, own(s), cap); s.M.s->freed = none;
    }
    void same(Slot<E>& s, const E* p, const char* op) { CHECK((s.konst ? s.k.dataPtr().get() : s.m.dataPtr().get()) == p, "needless-copy", op << " moved the elements of a unique vector with sufficient capacity"); }
    void voidTrip(Slot<E>& s, std::ostringstream& d);
};
template<class E, bool OK> struct Void { static void go(World<E>&, Slot<E>&, std::ostringstream& d) { d << "-"; } };
template<class E> struct Void<E, true> { static void go(World<E>& w, Slot<E>& s, std::ostringstream& d) {
    std::vector<E> v = w.own(s); ScalarType id = (ScalarType)ScalarTypeID<E>::value;
    if(s.konst) {
        shared_vector<const void> x(static_shared_vector_cast<const void>(s.k)); CHECK_EQ(x.size(), v.size() * sizeof(E), "void-size", ""); CHECK((s.M.s ? (const void*)s.k.data() : x.data()) == x.data() || v.empty(), "void-data", ""); CHECK_EQ((int)x.original_type(), (int)id, "original_type", "");
        shared_vector<const E> y(w.c.coin() ? static_shared_vector_cast<const E>(x) : shared_vector_convert<const E>(x)); CHECK(std::vector<E>(y.begin(), y.end()) == v, "void-round-trip", ""); if(v.size()) CHECK(y.data() == s.k.data(), "void-copied", "");
        if(v.size() > 1) { size_t o = w.c.u(v.size()); x.slice(o * sizeof(E)); shared_vector<const E> z(static_shared_vector_cast<const E>(x)); CHECK(std::vector<E>(z.begin(), z.end()) == std::vector<E>(v.begin() + o, v.end()), "void-slice", ""); }
    } else {
        shared_vector<void> x(static_shared_vector_cast<void>(s.m)); CHECK_EQ(x.size(), v.size() * sizeof(E), "void-size", ""); CHECK_EQ((int)x.original_type(), (int)id, "original_type", ""); shared_vector<void> x2(x), x3; x3 = x2; x3.swap(x2); CHECK_EQ((int)x3.original_type(), (int)id, "original_type", ""); { shared_vector<void> none; const void* where = x3.dataPtr().get(); size_t bytes = x3.size(); if(v.size() % 2) none.swap(x3); else x3.swap(none); CHECK_EQ((int)none.original_type(), (int)id, "original_type", "swapped with an empty vector"); CHECK(none.dataPtr().get() == where && none.size() == bytes, "void-swap", "swapped with an empty vector"); CHECK(x3.empty() && !x3.dataPtr(), "void-swap", "swapped with an empty vector"); x3.swap(none); }
        if(s.M.s) { MUST_THROW(freeze(x), "freeze-shared", "void"); }
        shared_vector<E> y(static_shared_vector_cast<E>(x)); CHECK(std::vector<E>(y.begin(), y.end()) == v, "void-round-trip", "");
        if(v.size()) { E e = w.val(); size_t k = w.c.u(v.size()); y[k] = e; s.M.s->el[s.M.off + k] = e; v[k] = e; } // same storage
        if(s.M.s && w.uniq(s)) { bool all = s.M.total == s.M.cnt; x.clear(); x2.clear(); x3.clear(); y.clear(); x = static_shared_vector_cast<void>(s.m); s.m.clear(); shared_vector<const void> f(freeze(x)); CHECK(!x.dataPtr() && !x.size(), "freeze-source", "void"); CHECK_EQ((int)f.original_type(), (int)id, "original_type", "after freeze"); shared_vector<const E> g(static_shared_vector_cast<const E>(f)); f.clear(); CHECK(g.unique(), "unique", "void"); s.m = thaw(g); CHECK(std::vector<E>(s.m.begin(), s.m.end()) == v, "void-round-trip", "frozen"); if(!all) s.M.total = s.m.capacity(); CHECK(s.m.capacity() >= v.size(), "capacity", "void"); }
    }
    d << "through void"; } };
template<class E> void World<E>::voidTrip(Slot<E>& s, std::ostringstream& d) { Void<E, !std::is_same<E, ptr_t>::value>::go(*this, s, d); }
template<class E> void history(Ctx& c, const char* name)
{
    c.desc << name; std::vector<std::tr1::shared_ptr<int> > ext; 
    { World<E> w(c); size_t n = 3 + c.u(25); c.nontrivial(n > 5); for(size_t i = 0; i < n; i++) w.step(); ext = w.ext; }
    for(auto& e : ext) CHECK_EQ(*e, 1, "storage-freed", "after dropping everything");
}
}
// growth one by one, through the sizes at which the storage is enlarged differently
namespace { template<class E> void growth(Ctx& c) {
    std::vector<E> v; size_t n = c.coin() ? (size_t)(c.oneOf({ 1, 2, 4, 8, 16, 64, 128, 255, 256, 257, 512, 513, 1023, 1024, 1025, 2047, 2048, 3072, 4096 }) + c.range(-1, 2)) : c.u(5000); int k = c.u(9); for(size_t i = 0; i < n; i++) v.push_back(Gen<E>::make(c, 0));
    shared_vector<E> x(n); std::copy(v.begin(), v.end(), x.begin()); size_t cut = 0; c.desc << n; if(n && c.chance(1, 3)) { cut = c.u(n); x.slice(cut); v.erase(v.begin(), v.begin() + cut); c.desc << " without " << cut; } if(v.size() && c.chance(1, 4)) { size_t l = c.u(v.size() + 1); x.slice(0, l); v.resize(l); c.desc << " first " << l; }
    shared_vector<E> shared; std::vector<E> sv; if(c.chance(1, 4)) { shared = x; sv = v; c.desc << " shared"; } size_t more = 1 + c.u(c.chance(1, 6) ? 1500 : 60); c.desc << " add " << more << " "; c.nontrivial(n > 100); size_t moves = 0;
    for(size_t i = 0; i < more; i++) { E e = Gen<E>::make(c, k); const E* before = x.data(); size_t cap = x.capacity(); bool room = cap > x.size() && x.unique(); x.push_back(e); v.push_back(e); if(x.data() != before) moves++; CHECK(x.capacity() >= x.size(), "capacity", "of " << x.capacity() << " for " << x.size()); CHECK(!room || x.data() == before, "kept", "moved although there was room"); CHECK_EQ(x.size(), v.size(), "size", ""); CHECK(x.back() == e, "back", ""); }
    CHECK(std::vector<E>(x.begin(), x.end()) == v, "growth", "elements changed"); CHECK(moves <= 12 + more / 1000, "moves", moves << " moves for " << more << " elements"); CHECK(std::vector<E>(shared.begin(), shared.end()) == sv, "other", "elements of another handle changed");
    for(size_t i = c.u(20); i-- && x.size();) { x.pop_back(); v.pop_back(); } x.make_unique(); CHECK(std::vector<E>(x.begin(), x.end()) == v, "growth", "after pop_back"); shared_vector<const E> f(freeze(x)); CHECK(std::vector<E>(f.begin(), f.end()) == v, "growth", "frozen"); shared_vector<const E> g(f); x = thaw(g); CHECK(std::vector<E>(x.begin(), x.end()) == v && std::vector<E>(f.begin(), f.end()) == v, "growth", "thawed");
} }
PBT_TEST(int_growth, 1500, 40000) { growth<int32>(c); }
PBT_TEST(string_growth, 800, 15000) { growth<std::string>(c); }
PBT_TEST(int_history, 40000, 1500000) { history<int32>(c, "int"); }
PBT_TEST(string_history, 30000, 1000000) { history<std::string>(c, "string"); }
PBT_TEST(double_history, 8000, 300000) { history<double>(c, "double"); }
PBT_TEST(pointer_history, 15000, 500000) { history<ptr_t>(c, "pointer"); }
