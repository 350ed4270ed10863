// P08: equal types are one shared instance, different types are never equal; also under concurrency
#include "gen_pvd.hpp"
#include <thread>
#include <atomic>
#include <mutex>
using namespace gp; using namespace pvd; using pbt::Ctx;

static TypeOpts small() { TypeOpts o; o.depth = 3; o.nodes = 8; o.wide = false; return o; }

static void relation(const TP& a, const FieldConstPtr& fa, const TP& b, const FieldConstPtr& fb) {
    bool same = eq(a, b);
    CHECK_EQ(fa.get() == fb.get(), same, same ? "not-interned" : "merged", show(a) << " / " << show(b));
    CHECK_EQ(*fa == *fb, same, "equality", show(a) << " / " << show(b)); CHECK_EQ(*fb == *fa, same, "equality", show(a) << " / " << show(b)); CHECK_EQ(*fa != *fb, !same, "inequality", show(a) << " / " << show(b));
    // the full comparison behind the lookup agrees
    CHECK_EQ(compare(*fa, *fb), same, "compare", show(a) << " / " << show(b)); CHECK_EQ(compare(*fb, *fa), same, "compare", show(b) << " / " << show(a));
    auto scal = [](const TP& t) { return t->k == KScalar || t->k == KBString; };
    if(scal(a) && scal(b)) { CHECK_EQ(compare(static_cast<const Scalar&>(*fa), static_cast<const Scalar&>(*fb)), same, "compare-typed", show(a) << " / " << show(b)); CHECK_EQ(static_cast<const Scalar&>(*fa) == static_cast<const Scalar&>(*fb), same, "equality-typed", show(a) << " / " << show(b)); }
    if(a->k == b->k) switch(a->k) {
    case KStruct: CHECK_EQ(compare(static_cast<const Structure&>(*fa), static_cast<const Structure&>(*fb)), same, "compare-typed", show(a) << " / " << show(b)); break;
    case KUnion: CHECK_EQ(compare(static_cast<const Union&>(*fa), static_cast<const Union&>(*fb)), same, "compare-typed", show(a) << " / " << show(b)); break;
    case KSArray: CHECK_EQ(compare(static_cast<const ScalarArray&>(*fa), static_cast<const ScalarArray&>(*fb)), same, "compare-typed", show(a) << " / " << show(b)); break;
    case KBString: CHECK_EQ(compare(static_cast<const BoundedString&>(*fa), static_cast<const BoundedString&>(*fb)), same, "compare-typed", ""); break;
    case KStructArr: CHECK_EQ(compare(static_cast<const StructureArray&>(*fa), static_cast<const StructureArray&>(*fb)), same, "compare-typed", ""); break;
    case KUnionArr: CHECK_EQ(compare(static_cast<const UnionArray&>(*fa), static_cast<const UnionArray&>(*fb)), same, "compare-typed", ""); break;
    default: break;
    }
    // statically typed comparison agrees
    if(a->k == b->k) switch(a->k) {
    case KStruct: CHECK_EQ(static_cast<const Structure&>(*fa) == static_cast<const Structure&>(*fb), same, "equality-typed", show(a) << " / " << show(b)); break;
    case KUnion: CHECK_EQ(static_cast<const Union&>(*fa) == static_cast<const Union&>(*fb), same, "equality-typed", show(a) << " / " << show(b)); break;
    case KSArray: CHECK_EQ(static_cast<const ScalarArray&>(*fa) == static_cast<const ScalarArray&>(*fb), same, "equality-typed", show(a) << " / " << show(b)); break;
    case KScalar: CHECK_EQ(static_cast<const Scalar&>(*fa) == static_cast<const Scalar&>(*fb), same, "equality-typed", show(a) << " / " << show(b)); break;
    case KBString: CHECK_EQ(static_cast<const BoundedString&>(*fa) == static_cast<const BoundedString&>(*fb), same, "equality-typed", ""); break;
    case KStructArr: CHECK_EQ(static_cast<const StructureArray&>(*fa) == static_cast<const StructureArray&>(*fb), same, "equality-typed", ""); break;
    case KUnionArr: CHECK_EQ(static_cast<const UnionArray&>(*fa) == static_cast<const UnionArray&>(*fb), same, "equality-typed", ""); break;
    default: break;
    }
}
PBT_TEST(histories, 60000, 1000000)
{
    struct Held { TP t; FieldConstPtr f; }; std::vector<Held> held; std::vector<TP> known; size_t n = 2 + c.u(10);
    for(size_t i = 0; i < n; i++) {
        switch(c.weighted({ 3, 3, 2, 2, 2 })) {
        case 0: known.push_back(genType(c, small())); break;
        case 1: if(!known.empty()) { std::string w; known.push_back(mutateType(c, c.pick(known), &w)); c.label("differs in " + w); } break;
        case 2: if(!held.empty()) { size_t k = c.u(held.size()); c.desc << " drop" << k; held.erase(held.begin() + k); } continue;
        case 3: if(!held.empty()) { // values keep their type alive
            size_t k = c.u(held.size()); PVFieldPtr v = getPVDataCreate()->createPVField(held[k].f); CHECK(v->getField().get() == held[k].f.get(), "value-type", ""); Held h = { held[k].t, v->getField() }; held.push_back(h); } continue;
        default: break;
        }
        if(known.empty()) continue;
        TP t = c.coin() ? known.back() : c.pick(known); Held h; h.t = t; h.f = buildBy(c, t); c.desc << " make " << show(t);
        TP d = describe(h.f); CHECK(eq(d, t), "built", "asked for " << show(t) << ", got " << show(d));
        held.push_back(h);
        for(auto& o : held) relation(o.t, o.f, t, held.back().f);
        for(auto& o : held) CHECK(eq(describe(o.f), o.t), "changed", "a held type changed: " << show(o.t));
    }
    c.nontrivial(held.size() > 1); for(auto& h : held) if(nodes(h.t) > 3) { c.label("nested type"); break; }
}
PBT_TEST(near_misses, 120000, 2000000)
{
    TP a = genType(c, small()); std::string w; TP b = mutateType(c, a, &w); c.desc << show(a) << " vs " << show(b) << " (" << w << ")"; c.nontrivial(nodes(a) > 1); c.label("differs in " + w);
    FieldConstPtr fa = buildBy(c, a), fb = buildBy(c, b), fa2 = buildBy(c, a);
    relation(a, fa, b, fb); relation(a, fa, a, fa2); relation(b, fb, a, fa2);
}
PBT_TEST(large, 600, 15000)
{
    // types with one difference far inside
    static const int kinds[] = { LWide, LWide, LUnion, LDeep, LNames }; int kind = kinds[c.u(5)]; Large l = genLarge(c, kind, kind == LNames ? 3000 : 300); TP a = l.t->kids[1], b = a; c.nontrivial(true);
    std::function<TP(const TP&, size_t, const std::function<TP(const TP&)>&)> at = [&](const TP& t, size_t i, const std::function<TP(const TP&)>& f) { std::shared_ptr<T> r(new T(*t)); r->kids[i] = f(t->kids[i]); return TP(r); };
    auto leaf = [&](const TP& t) { return t->k == KScalar ? mkScalar((ScalarType)((t->st + 1 + c.u(11)) % 12)) : mkScalar(pvInt); };
    if(a->k == KScalar) b = leaf(a); else if(l.what == "levels") { std::function<TP(const TP&)> down = [&](const TP& t) { return t->k == KStruct ? at(t, 0, down) : leaf(t); }; b = down(a); }
    else { size_t n = a->kids.size(), i = c.coin() ? n - 1 : c.u(n); switch(c.u(4)) { case 0: b = at(a, i, leaf); break; case 1: { std::shared_ptr<T> r(new T(*a)); std::string& s = r->names[i]; s += "yz"; b = r; break; } case 2: { std::shared_ptr<T> r(new T(*a)); std::string& s = r->names[i]; s[c.coin() ? s.size() - 1 : c.u(s.size())] = '_'; b = r; break; } default: { std::shared_ptr<T> r(new T(*a)); r->id[c.coin() ? r->id.size() - 1 : c.u(r->id.size())] = '_'; b = r; } } }
    FieldConstPtr fa = buildBy(c, a), fb = buildBy(c, b), fa2 = buildBy(c, a); relation(a, fa, b, fb); relation(a, fa, a, fa2); relation(b, fb, a, fa2); CHECK(eq(describe(fa), a) && eq(describe(fb), b), "built", "");
}
PBT_TEST(many_live_types, 8, 80)
{
    // enough live types of one kind that their hashes collide
    size_t n = 60000, base = 1 + c.u(1000000); size_t kind = c.u(4); ScalarType st = (ScalarType)c.u(12); 
    c.desc << "kind " << kind << " of " << ScalarTypeFunc::name(st) << " from " << base; c.nontrivial();
    std::vector<FieldConstPtr> f(n); FieldCreatePtr fc = getFieldCreate(); StringArray nm(1, "a"); FieldConstPtrArray one(1, fc->createScalar(st));
    auto mk = [&](size_t i) -> FieldConstPtr { switch(kind) { case 0: return fc->createBoundedScalarArray(st, base + i); case 1: return fc->createFixedScalarArray(st, base + i); case 2: return fc->createBoundedString(base + i); default: { std::ostringstream s; s << "id" << base + i; return fc->createStructure(s.str(), nm, one); } } };
    for(size_t i = 0; i < n; i++) f[i] = mk(i);
    for(size_t i = 0; i < n; i++) {
        size_t b = kind == 2 ? static_cast<const BoundedString&>(*f[i]).getMaximumLength() : kind < 2 ? static_cast<const ScalarArray&>(*f[i]).getMaximumCapacity() : 0;
        if(kind == 3) { std::ostringstream s; s << "id" << base + i; CHECK_EQ(f[i]->getID(), s.str(), "id", ""); } else CHECK_EQ(b, base + i, "bound", "asked for bound " << base + i);
    }
    for(size_t i = 0; i < n; i += 7) CHECK(mk(i) == f[i], "not-interned", "type " << i << " is live but a second instance was made");
}
// ---- concurrency
struct Start { std::atomic<int> n; int want; Start(int w) : n(0), want(w) {} void wait() { n++; while(n < want) std::this_thread::yield(); } };
template<class F> static void threads(size_t n, F f) {
    Start st((int)n); std::vector<std::thread> th; std::mutex m; std::string key, msg; bool failed = false;
    for(size_t i = 0; i < n; i++) th.push_back(std::thread([&, i] { st.wait(); try { f(i); } catch(pbt::Fail& e) { std::lock_guard<std::mutex> g(m); if(!failed) { key = e.key; msg = e.msg; } failed = true; } 
        catch(pbt::AssertHit& e) { std::lock_guard<std::mutex> g(m); if(!failed) { key = "assert"; msg = e.where + e.expr; } failed = true; }
        catch(std::exception& e) { std::lock_guard<std::mutex> g(m); if(!failed) { key = "thread-exception"; msg = e.what(); } failed = true; } }));
    for(auto& t : th) t.join();
    if(failed) throw pbt::Fail(key, msg);
}
PBT_RACY(concurrent_same, 5000, 40000)
{
    // several threads create, by any route, the same few types at once; some hold, some drop
    size_t nt = 2 + c.u(3), ntypes = 1 + c.u(3), rounds = 1 + c.u(12); std::vector<TP> types; for(size_t i = 0; i < ntypes; i++) { types.push_back(i && c.coin() ? mutateType(c, types[0]) : genType(c, small())); c.desc << show(types.back()) << " "; }
    std::vector<FieldConstPtr> pre; if(c.chance(1, 3)) { pre.push_back(build(types[0])); c.label("already live"); } else c.label("not live before");
    c.desc << nt << " threads x " << rounds; c.nontrivial();
    std::vector<uint64_t> seeds; for(size_t i = 0; i < nt; i++) seeds.push_back(c.bits());
    std::vector<std::vector<std::pair<size_t, FieldConstPtr> > > kept(nt); bool keepAll = c.coin();
    threads(nt, [&](size_t i) {
        Ctx my; my.src.seed(seeds[i]);
        for(size_t r = 0; r < rounds; r++) {
            size_t k = my.u(ntypes); FieldConstPtr f = buildBy(my, types[k]); if(!eq(describe(f), types[k])) FAIL("built-concurrently", "wrong type: " << show(describe(f)));
            for(auto& o : kept[i]) { bool same = eq(types[o.first], types[k]); if((o.second == f) != same) FAIL("concurrent-identity", show(types[k])); if((*o.second == *f) != same) FAIL("concurrent-equality", show(types[k])); }
            if(keepAll || my.coin()) kept[i].push_back(std::make_pair(k, f)); else if(!kept[i].empty() && my.coin()) kept[i].erase(kept[i].begin());
        } });
    for(size_t i = 0; i < nt; i++) for(auto& a : kept[i]) for(size_t j = 0; j < nt; j++) for(auto& b : kept[j]) { bool same = eq(types[a.first], types[b.first]); CHECK_EQ(a.second == b.second, same, "concurrent-identity", "two threads hold different instances of " << show(types[a.first])); }
}
PBT_RACY(drop_and_create, 5000, 40000)
{
    // one instance dies while others look it up
    size_t nt = 2 + c.u(4), rounds = 5 + c.u(40); TP t = c.chance(1, 3) ? mkSArray(genScalarType(c), 1 + (int)c.u(2), 1 + c.u(9)) : c.chance(1, 4) ? mkBString(1 + c.u(9)) : genType(c, small());
    c.desc << show(t) << " " << nt << " threads x " << rounds; c.nontrivial(nodes(t) > 1);
    threads(nt, [&](size_t) { for(size_t r = 0; r < rounds; r++) { FieldConstPtr f = build(t), g = build(t); if(f != g) FAIL("concurrent-identity", "two lookups in a row, the first still held, gave different instances of " << show(t)); 
        PVFieldPtr v = getPVDataCreate()->createPVField(f); if(v->getField() != g) FAIL("value-type", ""); if(r % 3 == 0) { std::ostringstream s; s << *f; } } });
    FieldConstPtr f = build(t); CHECK(eq(describe(f), t), "after", ""); CHECK(build(t) == f, "not-interned", "after concurrent use");
}
