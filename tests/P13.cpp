// P13: array fields as sequences with length, capacity and declared bounds
#include "gen_pvd.hpp"
#include <type_traits>
using namespace gp; using namespace epics::pvData;
namespace {
// what each structure/union element holds
typedef std::map<const void*, VP> Content;
template<class E> struct El {
    enum { compound = false };
    static E conv(Ctx& c, const TP&, std::true_type) { return genStr(c); }
    static E conv(Ctx& c, const TP& t, std::false_type) { uint64_t n = genNum(c, t->st, false); E e; memcpy(&e, &n, sizeof e); return e; }
    static E gen(Ctx& c, const TP& t, Content&) { return conv(c, t, std::is_same<E, std::string>()); }
    static void check(const E&, Content&, const std::string&) {}
    static bool learn(const E&, const TP&, Content&) { return true; }
    static void encode(Enc& e, const E& x, const TP& t, Content&) { VP v(new V()); v->t = mkScalar(t->st); enc(v, x, std::is_same<E, std::string>()); e.value(v); }
    static void enc(VP& v, const std::string& x, std::true_type) { v->str = x; }
    template<class X> static void enc(VP& v, const X& x, std::false_type) { memcpy(&v->num, &x, sizeof x); }
};
template<class P> struct ElP {
    enum { compound = true };
    static TP elem(const TP& t) { return t->kids.empty() ? mkKind(KVariant) : t->kids[0]; }
    static P gen(Ctx& c, const TP& t, Content& k) { if(c.chance(1, 4)) return P(); ValOpts o; o.maxLen = 3; o.variantDepth = 1; VP v = genValue(c, elem(t), o); P p = std::tr1::static_pointer_cast<typename P::element_type>(gp::make(v)); k[p.get()] = v; return p; }
    static void check(const P& p, Content& k, const std::string& op) { if(!p) return; auto it = k.find(p.get()); CHECK(it != k.end(), "element", op << ": an element which was never put there"); std::string d = diff(load(*p), it->second); CHECK(d.empty(), "element-content", op << ": " << d); }
    // an element made by the library must be a default value of the element type
    static bool learn(const P& p, const TP& t, Content& k) { CHECK((bool)p, "appended-null", ""); VP v = defaultValue(elem(t)); std::string d = diff(load(*p), v); CHECK(d.empty(), "appended-default", d); CHECK(!k.count(p.get()), "appended-again", "not a new element"); k[p.get()] = v; return true; }
    static void encode(Enc& e, const P& x, const TP&, Content& k) { e.u8(x ? 1 : 0); if(x) e.value(k[x.get()]); }
};
template<> struct El<PVStructurePtr> : ElP<PVStructurePtr> {};
template<> struct El<PVUnionPtr> : ElP<PVUnionPtr> {};
template<class E, bool C> struct Grow; // append/remove/compress exist only for structure and union arrays

struct Count : public PostHandler { size_t n = 0; void postPut() { n++; } };

template<class E> struct World {
    typedef PVValueArray<E> A; typedef typename A::svector S; typedef typename A::const_svector C; typedef std::vector<E> Vec; typedef El<E> L;
    Ctx& c; TP t; std::tr1::shared_ptr<A> a; Vec m; Content k; bool capMutable = true; size_t sc = 1; std::vector<std::pair<C, Vec> > views; std::vector<std::tr1::shared_ptr<Count> > cnt; std::vector<E> keepAlive; std::tr1::shared_ptr<Count> posts;
    World(Ctx& c_, const TP& t_) : c(c_), t(t_), posts(new Count()) { a = std::tr1::dynamic_pointer_cast<A>(getPVDataCreate()->createPVField(build(t))); CHECK((bool)a, "created", show(t)); a->setPostHandler(posts); }
    bool fits(size_t n) { return t->cls == 0 || (t->cls == 1 ? n <= t->bound : n == t->bound); }
    size_t len() { return t->cls && c.chance(1, 2) ? (c.chance(1, 4) ? t->bound + 1 + c.u(3) : t->bound) : c.u(8 * sc); }
    E gen() { E e = L::gen(c, t, k); keepAlive.push_back(e); return e; }
    static C frz(const Vec& v) { S s(v.size()); std::copy(v.begin(), v.end(), s.begin()); return freeze(s); }
    static Vec vec(const C& x) { return Vec(x.begin(), x.end()); }
    void check(const std::string& op) {
        CHECK_EQ(a->getLength(), m.size(), "length", op); CHECK(a->getCapacity() >= a->getLength(), "capacity", op << ": " << a->getCapacity() << " < " << a->getLength()); CHECK_EQ(a->isCapacityMutable(), capMutable, "isCapacityMutable", op);
        C v(a->view()); CHECK(vec(v) == m, "elements", op); for(auto& e : m) L::check(e, k, op); CHECK(a->getArray() == a->getField(), "getArray", op);
        for(auto& w : views) { CHECK(vec(w.first) == w.second, "view-changed", op << ": a view taken earlier changed"); for(auto& e : w.second) L::check(e, k, op); }
    }
    template<class F> bool attempt(bool ok, const std::string& op, F f) { // refused exactly when it must be
        bool th = false; try { f(); } catch(std::exception& e) { th = true; } CHECK(th == !ok, ok ? "wrongly-refused" : "not-refused", op); c.cover(th, "refused"); return !th; }
    void step() {
        std::ostringstream d; size_t p0 = posts->n, want = 0;
        switch(c.weighted({ 4, 4, 2, 4, 3, 4, 2, 1, L::compound ? 4u : 0u, L::compound ? 4u : 0u, L::compound ? 3u : 0u, 3, 1 })) {
        case 0: { Vec v; size_t n = len(); for(size_t i = 0; i < n; i++) v.push_back(c.chance(1, 8) && m.size() ? m[c.u(m.size())] : gen()); d << "replace with " << n; C x(frz(v)), y(x); if(attempt(fits(n), d.str(), [&]{ a->replace(x); })) { m = v; want = 1; if(n) CHECK(a->view().data() == x.data(), "replace-copies", d.str()); } CHECK(vec(y) == v, "source-changed", d.str()); if(c.coin()) views.push_back(std::make_pair(x, v)); break; }
        case 1: { size_t n = len(); d << "setLength " << n; Vec old(m); if(attempt(fits(n) || n == m.size(), d.str(), [&]{ a->setLength(n); })) { 
                CHECK_EQ(a->getLength(), n, "length", d.str()); Vec now = vec(a->view()); for(size_t i = 0; i < n && i < old.size(); i++) CHECK(now[i] == old[i], "elements", d.str()); m = now; { bool odd = false; for(auto& e : m) if(!(e == e)) { e = E(); odd = true; } if(odd) a->replace(frz(m)); } /* what the new ones hold is not said, so it may be a NaN */ if(L::compound) for(size_t i = old.size(); i < n; i++) { known(now[i], std::integral_constant<bool, L::compound>()); L::check(now[i], k, d.str()); } } break; }
        case 2: { size_t n = len() + (c.chance(1, 4) ? 20 : 0); d << "setCapacity " << n; size_t had = a->getCapacity(); if(!attempt(fits(n) && capMutable, d.str(), [&]{ a->setCapacity(n); })) CHECK_EQ(a->getCapacity(), had, "refused-capacity", d.str()); else CHECK(a->getCapacity() >= n, "capacity", d.str() << ": " << a->getCapacity()); break; }
        case 3: { d << "view"; C v(a->view()); if(c.coin()) v.slice(c.u(4), c.u(6)); views.push_back(std::make_pair(v, vec(v))); break; }
        case 4: { size_t n = t->cls == 2 ? t->bound : t->cls == 1 ? c.u(t->bound + 1) : c.u(8 * sc); Vec v; for(size_t i = 0; i < n; i++) v.push_back(gen()); C x(frz(v)); d << "swap with " << n; a->swap(x); CHECK(vec(x) == m, "swapped-out", d.str()); m = v; if(c.coin()) views.push_back(std::make_pair(x, vec(x))); break; }
        case 5: { d << "reuse"; S s(a->reuse()); CHECK(s.unique(), "reuse-unique", ""); CHECK(Vec(s.begin(), s.end()) == m, "reuse-content", ""); CHECK(a->getLength() == 0, "reuse-left", ""); Vec v(m); m.clear(); check("reuse");
            size_t n = t->cls == 2 ? t->bound : t->cls == 1 ? c.u(t->bound + 1) : c.u(8 * sc); size_t old = v.size(); s.resize(n); v.resize(n); for(size_t i = 0; i < n; i++) if(i >= old || c.coin()) { E e = gen(); s[i] = e; v[i] = e; } a->replace(freeze(s)); m = v; want = 1; break; }
        case 6: { size_t n = c.u(3); d << "setCapacityMutable " << (n != 0); a->setCapacityMutable(n != 0); capMutable = n != 0; break; }
        case 7: if(views.size()) { d << "drop views"; views.clear(); } else d << "-"; break;
        case 8: case 9: case 10: compound(d, std::integral_constant<bool, L::compound>()); break;
        case 11: { // decode: earlier views and elements held elsewhere keep their values
            size_t n = t->cls == 2 ? t->bound : t->cls == 1 ? c.u(t->bound + 1) : c.u(8 * sc); bool big = c.coin(); Enc e(big); if(t->cls != 2) e.size(n); Vec v; for(size_t i = 0; i < n; i++) { v.push_back(gen()); L::encode(e, v.back(), t, k); } d << "decode " << n; In in(e.b, 64, big); Lean l; thin(l, v, std::integral_constant<bool, L::compound>()); a->deserialize(&in.buf, &in); thinCheck(l, std::integral_constant<bool, L::compound>()); CHECK_EQ(in.left(), (size_t)0, "decode-left", ""); CHECK_EQ(a->getLength(), n, "length", "decode"); want = 1;
            Vec now = vec(a->view()); if(L::compound) adopt(now, v, std::integral_constant<bool, L::compound>()); else CHECK(now == v, "decoded", ""); m = now; break; }
        default: { d << "round trip of own view"; C x(a->view()); bool ok = fits(x.size()); if(attempt(ok, d.str(), [&]{ a->replace(x); })) want = 1; }
        }
        if(posts->n - p0 != want && want == 1) FAIL("posted", d.str() << ": " << posts->n - p0 << " notifications");
        c.desc << "; " << d.str(); check(d.str());
    }
    // before decoding: nothing but one view, or a single reference to some elements, is kept
    struct Lean { C view; Vec held; std::vector<VP> was, wasHeld; };
    void thin(Lean& l, const Vec& v, std::true_type) {
        if(c.coin()) return; c.label("few references"); views.clear(); Content k2; for(auto& e : v) if(e) k2[e.get()] = k[e.get()];
        if(c.coin()) { l.view = a->view(); if(c.coin()) l.view.slice(c.u(3), c.u(4)); } for(auto& e : l.view) { l.was.push_back(e ? k[e.get()] : VP()); if(e) k2[e.get()] = k[e.get()]; }
        for(auto& e : m) if(e && c.chance(1, 3)) { l.held.push_back(e); l.wasHeld.push_back(k[e.get()]); k2[e.get()] = k[e.get()]; }
        m.clear(); keepAlive = v; k.swap(k2); }
    void thinCheck(Lean& l, std::true_type) {
        for(size_t i = 0; i < l.was.size(); i++) { CHECK((bool)l.view[i] == (bool)l.was[i], "view-changed", "by decoding"); if(l.view[i]) { std::string d = diff(load(*l.view[i]), l.was[i]); CHECK(d.empty(), "view-changed", "an element of a view taken earlier changed by decoding: " << d); } }
        for(size_t i = 0; i < l.held.size(); i++) { std::string d = diff(load(*l.held[i]), l.wasHeld[i]); CHECK(d.empty(), "held-changed", "an element still referred to changed by decoding: " << d); }
        if(l.was.size()) views.push_back(std::make_pair(l.view, vec(l.view))); keepAlive.insert(keepAlive.end(), l.held.begin(), l.held.end()); }
    void known(const E& e, std::true_type) { if(e && !k.count(e.get())) k[e.get()] = load(*e); } // was in the array before, beyond its length
    void known(const E&, std::false_type) {}
    void thin(Lean&, const Vec&, std::false_type) {}
    void thinCheck(Lean&, std::false_type) {}
    // decoded elements are either new objects or reused ones nobody else refers to
    void adopt(Vec& now, Vec& v, std::true_type) { for(size_t i = 0; i < now.size(); i++) { CHECK((bool)now[i] == (bool)v[i], "decoded-null", i); if(now[i]) { bool other = false; for(size_t j = 0; j < i; j++) other |= now[j] == now[i]; CHECK(!other, "decoded-shared", "the same object twice"); k[now[i].get()] = k[v[i].get()]; keepAlive.push_back(now[i]); } } }
    void adopt(Vec&, Vec&, std::false_type) {}
    void compound(std::ostringstream&, std::false_type) {}
    void compound(std::ostringstream& d, std::true_type) {
        switch(c.u(3)) {
        case 0: { size_t n = c.u(4); d << "append " << n; size_t r = 0; if(attempt(fits(m.size() + n), d.str(), [&]{ r = a->append(n); })) { CHECK_EQ(r, m.size() + n, "append-result", ""); C v(a->view()); CHECK_EQ(v.size(), r, "append-length", ""); for(size_t i = 0; i < m.size(); i++) CHECK(v[i] == m[i], "elements", d.str()); for(size_t i = m.size(); i < r; i++) { L::learn(v[i], t, k); keepAlive.push_back(v[i]); m.push_back(v[i]); } } break; }
        case 1: { size_t off = c.chance(1, 6) ? c.oneOf<size_t>({ (size_t)-1, m.size(), m.size() + 1 }) : c.u(m.size() + 1), n = c.chance(1, 6) ? c.oneOf<size_t>({ (size_t)-1, m.size() + 1, (size_t)-2 }) : c.u(m.size() - std::min(off, m.size()) + 1); d << "remove " << (ptrdiff_t)off << "," << (ptrdiff_t)n; bool ok = n == 0 || (n <= m.size() && off <= m.size() - n && t->cls != 2); bool r = a->remove(off, n); CHECK_EQ(r, ok, "remove-result", d.str()); if(ok && n) m.erase(m.begin() + off, m.begin() + off + n); break; }
        default: { d << "compress"; a->compress(); if(t->cls != 2) { Vec v; for(auto& e : m) if(e) v.push_back(e); m = v; } }
        }
    }
};
template<class E> void history(Ctx& c, const TP& t)
{
    c.desc << show(t); World<E> w(c, t); if(c.chance(1, 500)) { w.sc = 1 + c.u(El<E>::compound ? 40 : 500); c.label("large"); } size_t n = 2 + c.u(18); c.nontrivial(n > 4); for(size_t i = 0; i < n; i++) w.step();
}
}
PBT_TEST(scalar_arrays, 50000, 2000000)
{
    ScalarType st = genScalarType(c); int cls = (int)c.weighted({ 3, 2, 1 }); TP t = mkSArray(st, cls, cls ? c.chance(1, 300) ? genLargeN(c, 3000) : 1 + c.u(6) : 0); c.label(ScalarTypeFunc::name(st)); c.cover(cls == 1, "bounded"); c.cover(cls == 2, "fixed");
    switch(st) {
    case pvBoolean: history<boolean>(c, t); break; case pvByte: history<int8>(c, t); break; case pvShort: history<int16>(c, t); break; case pvInt: history<int32>(c, t); break; case pvLong: history<int64>(c, t); break;
    case pvUByte: history<uint8>(c, t); break; case pvUShort: history<uint16>(c, t); break; case pvUInt: history<uint32>(c, t); break; case pvULong: history<uint64>(c, t); break;
    case pvFloat: history<float>(c, t); break; case pvDouble: history<double>(c, t); break; default: history<std::string>(c, t); break;
    }
}
static TP arr(Ctx& c, bool st)
{
    TypeOpts o; o.depth = 1; o.nodes = 4; o.wide = false; TP e; if(st) e = genStruct(c, o); else if(c.chance(1, 3)) return mkKind(KVariantArr); else e = genUnion(c, o);
    return mkArr(st ? KStructArr : KUnionArr, e);
}
PBT_TEST(structure_arrays, 20000, 800000) { history<PVStructurePtr>(c, arr(c, true)); }
PBT_TEST(union_arrays, 16000, 700000) { history<PVUnionPtr>(c, arr(c, false)); }
