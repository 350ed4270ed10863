// P14: union fields hold null or a value of the selected member type
#include "gen_pvd.hpp"
using namespace gp; using namespace epics::pvData;
namespace {
ValOpts vo() { ValOpts o; o.maxLen = 4; o.nan = false; o.big = false; o.variantDepth = 1; return o; }
struct M { int sel = -1; PVFieldPtr obj; };
struct World {
    Ctx& c; TP t; UnionConstPtr ut; bool variant; std::vector<PVUnionPtr> u; std::vector<M> m; std::vector<PVFieldPtr> pool, holders; std::map<PVField*, VP> content; std::set<std::string> names;
    World(Ctx& c_, const TP& t_) : c(c_), t(t_), ut(std::tr1::static_pointer_cast<const Union>(build(t_))), variant(t_->k == KVariant), names(t_->names.begin(), t_->names.end())
    { for(int i = 0; i < 3; i++) { u.push_back(create()); m.push_back(M()); } }
    PVUnionPtr create() { // by several routes
        PVDataCreatePtr dc = getPVDataCreate();
        switch(c.u(6)) {
        case 0: return dc->createPVUnion(ut);
        case 1: return std::tr1::dynamic_pointer_cast<PVUnion>(dc->createPVField(ut));
        case 2: { PVStructurePtr s = dc->createPVStructure(getFieldCreate()->createFieldBuilder()->add("x", pvInt)->add("u", ut)->createStructure()); holders.push_back(s); return c.coin() ? s->getSubField<PVUnion>("u") : s->getSubField<PVUnion>((size_t)2); }
        case 3: { if(t->k == KVariant) return dc->createPVVariantUnion(); PVUnionArrayPtr a = std::tr1::static_pointer_cast<PVUnionArray>(dc->createPVField(getFieldCreate()->createUnionArray(ut))); a->append(2); holders.push_back(a); return a->view()[c.u(2)]; }
        case 4: { PVUnionPtr x = dc->createPVUnion(ut); return dc->createPVUnion(x); }
        default: { PVUnionPtr v = dc->createPVVariantUnion(); PVFieldPtr x = dc->createPVField(ut); v->set(x); holders.push_back(v); return v->get<PVUnion>(); }
        }
    }
    PVFieldPtr object(const TP& ty) { if(pool.size() && c.chance(1, 3)) { auto& p = c.pick(pool); if(eq(content[p.get()]->t, ty)) return p; } VP v = genValue(c, ty, vo()); PVFieldPtr p = make(v); content[p.get()] = v; pool.push_back(p); return p; }
    // a type that is not that of member sel
    TP other(size_t sel) { if(variant) return genType(c, small()); if(c.coin() && t->kids.size() > 1) { const TP& x = c.pick(t->kids); if(!eq(x, t->kids[sel])) return x; } std::string w; TP x = mutateType(c, t->kids[sel], &w); if(x && !eq(x, t->kids[sel])) return x; x = genType(c, small()); return eq(x, t->kids[sel]) ? TP() : x; }
    static TypeOpts small() { TypeOpts o; o.depth = 2; o.nodes = 5; o.wide = false; return o; }
    void check(const std::string& op) {
        for(size_t i = 0; i < u.size(); i++) {
            PVUnion& x = *u[i]; const PVUnion& cx = x; std::ostringstream o; o << op << ", union " << i;
            CHECK_EQ(x.getSelectedIndex(), m[i].sel, "selected-index", o.str()); CHECK_EQ(x.getSelectedFieldName(), m[i].sel < 0 ? std::string() : t->names[m[i].sel], "selected-name", o.str()); CHECK(x.getUnion() == ut && x.getField() == ut, "union-type", o.str());
            CHECK(x.get() == m[i].obj && cx.get() == m[i].obj, "value-identity", o.str()); CHECK(variant || (bool)x.get() == (x.getSelectedIndex() >= 0), "null-iff-undefined", o.str());
            if(x.get()) { if(!variant) CHECK(x.get()->getField() == ut->getField(m[i].sel), "value-type", o.str() << ": " << x.get()->getField()->getID()); std::string d = diff(load(x.get()), content[x.get().get()]); CHECK(d.empty(), "value", o.str() << ": " << d);
                CHECK((bool)x.get<PVScalar>() == (x.get()->getField()->getType() == scalar) && (bool)x.get<PVStructure>() == (x.get()->getField()->getType() == structure) && (bool)cx.get<PVScalarArray>() == (x.get()->getField()->getType() == scalarArray), "typed-get", o.str()); }
            for(size_t j = 0; j < i; j++) { bool e = *u[i] == *u[j]; if(m[i].sel != m[j].sel || !m[i].obj != !m[j].obj) CHECK(!e, "equality", o.str()); else if(!m[i].obj || eq(content[m[i].obj.get()], content[m[j].obj.get()])) CHECK(e, "equality", o.str()); }
        }
    }
    template<class F> void refused(const std::string& what, F f) { bool th = false; try { f(); } catch(std::invalid_argument&) { th = true; } CHECK(th, "not-refused", what); c.label("refused " + what.substr(0, what.find(':'))); }
    void learn(size_t i, int sel, const VP& v, const char* op) { m[i].sel = sel; PVFieldPtr p = u[i]->get(); CHECK((bool)p == (bool)v, "value-null", op); m[i].obj = p; if(p) { content[p.get()] = clone(v); pool.push_back(p); } }
    void step() {
        std::ostringstream d; size_t i = c.u(u.size()), n = t->kids.size(), j = c.u(u.size()); PVUnion& x = *u[i];
        switch(c.weighted({ 5, 5, 3, 3, 4, 3, 3, 2 })) {
        case 0: { // select
            if(variant) { switch(c.u(3)) { case 0: d << "select -1"; CHECK(!x.select(-1), "select-undefined", ""); m[i] = M(); break; case 1: d << "select name"; refused("select of a variant: name", [&]{ x.select(genName(c, {})); }); break; default: d << "select 0"; refused("select of a variant: index", [&]{ x.select((int32)c.u(3)); }); } break; }
            if(c.chance(1, 6)) { d << "select -1"; CHECK(!x.select(PVUnion::UNDEFINED_INDEX), "select-undefined", ""); m[i] = M(); break; }
            if(c.chance(1, 6)) { int32 k = c.oneOf<int32>({ (int32)n, -2, (int32)n + 1, INT32_MIN, INT32_MAX, -100 }); d << "select " << k; refused("select: bad index", [&]{ x.select(k); }); break; }
            if(c.chance(1, 8)) { std::string nm = c.coin() ? genName(c, names) : c.oneOf<std::string>({ "", ".", "nosuch" }); if(names.count(nm)) break; d << "select '" << nm << "'"; refused("select: bad name", [&]{ x.select(nm); }); break; }
            int k = (int)c.u(n); bool same = k == m[i].sel; d << "select " << k; PVFieldPtr p, old = x.get(); if(c.coin()) p = x.select(k); else p = x.select(t->names[k]); CHECK(p && p == x.get(), "select-result", d.str()); CHECK(!same || p == old, "select-same-replaced", d.str()); if(!same) learn(i, k, defaultValue(t->kids[k]), "select"); break; }
        case 1: { // set
            if(variant) { PVFieldPtr p = c.chance(1, 6) ? PVFieldPtr() : object(genType(c, small())); d << "set"; if(c.coin()) x.set(p); else x.set(-1, p); m[i].obj = p; break; }
            int k = (int)c.u(n); PVFieldPtr p = object(t->kids[k]); d << "set " << k; switch(c.u(3)) { case 0: x.set(k, p); break; case 1: x.set(t->names[k], p); break; default: if(m[i].sel >= 0 && eq(t->kids[m[i].sel], t->kids[k])) { x.set(p); k = m[i].sel; } else if(m[i].sel < 0) { refused("set: value while undefined", [&]{ x.set(p); }); d << " refused"; c.desc << "; " << i << " " << d.str(); check(d.str()); return; } else { refused("set: other type than selected", [&]{ x.set(p); }); d << " refused"; c.desc << "; " << i << " " << d.str(); check(d.str()); return; } } m[i].sel = k; m[i].obj = p; break; }
        case 2: { // refused settings
            if(variant) { d << "set of a bad index"; int32 k = c.oneOf<int32>({ 0, 1, -2, INT32_MAX }); PVFieldPtr p = object(genType(c, small())); refused("set of a variant: index", [&]{ x.set(k, p); }); refused("set of a variant: name", [&]{ x.set("a", p); }); break; }
            int k = (int)c.u(n); switch(c.u(5)) {
            case 0: { TP ty = other(k); if(!ty) break; PVFieldPtr p = object(ty); d << "set " << k << " to " << show(ty); refused("set: other type", [&]{ if(c.coin()) x.set(k, p); else x.set(t->names[k], p); }); break; }
            case 1: d << "set null"; refused("set: null", [&]{ if(c.coin()) x.set(k, PVFieldPtr()); else x.set(t->names[k], PVFieldPtr()); }); break;
            case 2: { int32 b = c.oneOf<int32>({ (int32)n, -2, INT32_MIN, INT32_MAX }); PVFieldPtr p = object(t->kids[k]); d << "set " << b; refused("set: bad index", [&]{ x.set(b, p); }); break; }
            case 3: { PVFieldPtr p = object(t->kids[k]); d << "set -1 to a value"; refused("set: undefined to a value", [&]{ x.set(-1, p); }); break; }
            default: { std::string nm = genName(c, names); PVFieldPtr p = object(t->kids[k]); d << "set '" << nm << "'"; if(!names.count(nm)) refused("set: bad name", [&]{ x.set(nm, p); }); } }
            break; }
        case 3: { d << "clear"; switch(c.u(3)) { case 0: x.select(-1); break; case 1: x.set(-1, PVFieldPtr()); break; default: if(variant || m[i].sel < 0) x.set(PVFieldPtr()); else x.select(PVUnion::UNDEFINED_INDEX); } m[i] = M(); break; }
        case 4: { d << "copy of " << j; VP v = m[j].obj ? clone(content[m[j].obj.get()]) : VP(); int sel = m[j].sel; switch(c.u(3)) { case 0: x.copy(*u[j]); break; case 1: x.copyUnchecked(*u[j]); break; default: static_cast<PVField&>(x).copy(*u[j]); } learn(i, sel, v, "copy"); if(i != j && v && x.get() == u[j]->get()) { /* they already were the same object */ } break; }
        case 5: { // decode
            bool big = c.coin(); Enc e(big); VP v(new V()); v->t = t; 
            if(!variant && c.chance(1, 4)) { int64_t k = c.oneOf<int64_t>({ (int64_t)n, (int64_t)n + 1, 253, 254, 1000, 0x7ffffffe }); if(k < (int64_t)n) break; e.size(k); VP w = genValue(c, t->kids[0], vo()); e.value(w); In in(e.b, 256, big); in.hostile = true; d << "decode of selector " << k; bool th = false; try { x.deserialize(&in.buf, &in); } catch(std::exception&) { th = true; } CHECK(th, "decode-bad-selector", d.str()); c.label("refused decode"); break; }
            if(variant) { v->kids.resize(1); if(!c.chance(1, 5)) v->kids[0] = genValue(c, c.coin() && m[i].obj ? content[m[i].obj.get()]->t : genType(c, small()), vo()); } else { v->sel = c.chance(1, 6) ? -1 : (int)c.u(n); v->kids.resize(1); if(v->sel >= 0) v->kids[0] = genValue(c, t->kids[v->sel], vo()); }
            e.value(v); In in(e.b, genCap(c), big, false, &c); x.deserialize(&in.buf, &in); CHECK_EQ(in.left(), (size_t)0, "decode-left", ""); d << "decode " << show(v).substr(0, 60); learn(i, variant ? -1 : v->sel, v->kids[0], "decode"); break; }
        case 6: if(m[i].obj) { d << "change value"; VP& v = content[m[i].obj.get()]; VP nv = clone(v); std::string w; if(mutate(c, nv, vo(), &w)) { store(x.get(), nv); v = nv; d << " " << w; } } else d << "-"; break;
        default: { // copying from a different union type is refused
            std::string w; TP o = variant ? genUnion(c, small()) : c.chance(1, 4) ? mkKind(KVariant) : mutateType(c, t, &w); if(!o || eq(o, t) || (o->k != KUnion && o->k != KVariant)) { d << "-"; break; } PVFieldPtr p = make(genValue(c, o, vo())); d << "copy of another type"; refused("copy: other type", [&]{ x.copy(static_cast<PVUnion&>(*p)); }); }
        }
        c.desc << "; " << i << " " << d.str(); check(d.str());
    }
};
}
PBT_TEST(history, 90000, 4000000)
{
    TypeOpts o; o.depth = 2; o.nodes = 7; o.wide = false; o.fixed = false; TP t = c.chance(1, 4) ? mkKind(KVariant) : genUnion(c, o); if(t->k == KUnion && c.chance(1, 300)) { std::vector<std::string> nm; std::vector<TP> k; size_t n = 60 + c.u(300); for(size_t i = 0; i < n; i++) { nm.push_back("m" + std::to_string(i)); k.push_back(mkScalar((ScalarType)(i * 7 % 12))); } t = mkUnion(nm, k); c.label("many choices"); } c.desc << show(t).substr(0, 2000); World w(c, t); w.check("created"); size_t n = 2 + c.u(18); c.nontrivial(n > 4); for(size_t i = 0; i < n; i++) w.step();
}
