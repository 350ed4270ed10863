// P10: field numbering, names and parents in a structure are consistent
#include "gen_pvd.hpp"
using namespace gp; using namespace pvd; using pbt::Ctx;

struct Node { size_t at, next; std::string name, path; int parent; TP t; std::vector<int> kids; };
static void number(const TP& t, const std::string& name, const std::string& path, int parent, std::vector<Node>& out) {
    int me = (int)out.size(); Node n; n.at = out.size(); n.name = name; n.path = path; n.parent = parent; n.t = t; out.push_back(n);
    if(t->k == KStruct) for(size_t i = 0; i < t->kids.size(); i++) { out[me].kids.push_back((int)out.size()); number(t->kids[i], t->names[i], path.empty() ? t->names[i] : path + "." + t->names[i], me, out); }
    out[me].next = out.size();
}
// a structure value by a random route
static PVFieldPtr assemble(Ctx& c, const TP& t) {
    PVDataCreatePtr dc = getPVDataCreate();
    if(t->k == KStruct && c.coin()) { // out of ready-made members, which may have been asked for their number before
        PVFieldPtrArray f; StringArray n; for(size_t i = 0; i < t->kids.size(); i++) { n.push_back(t->names[i]); f.push_back(assemble(c, t->kids[i])); if(c.chance(1, 3)) { f.back()->getNumberFields(); c.label("member numbered before assembly"); } }
        if(n.size() && c.chance(1, 8)) { // lists which do not fit
            PVFieldPtrArray g(f); StringArray m(n); switch(c.u(3)) { case 0: g.pop_back(); break; case 1: g[c.u(g.size())].reset(); break; default: m.pop_back(); } c.label("lists which do not fit"); MUST_THROW(dc->createPVStructure(m, g), "accepts-lists", "");
            for(auto& x : f) CHECK(!x->getParent(), "refused-keeps", "member belongs to a structure which was refused"); }
        PVStructurePtr s; if(t->id == "structure" && c.coin()) s = dc->createPVStructure(n, f); else s = PVStructurePtr(new PVStructure(std::tr1::static_pointer_cast<const Structure>(build(t)), f));
        return s;
    }
    if(c.chance(1, 5)) { PVFieldPtr o = assemble(c, t); return dc->createPVField(o); }
    return dc->createPVField(build(t));
}
static PVStructurePtr instance(Ctx& c, const TP& t) {
    PVDataCreatePtr dc = getPVDataCreate();
    switch(c.weighted({ 3, 4, 1, 1, 1, 1 })) {
    case 0: return std::tr1::static_pointer_cast<PVStructure>(dc->createPVField(build(t)));
    case 1: c.label("assembled"); return std::tr1::static_pointer_cast<PVStructure>(assemble(c, t));
    case 2: { c.label("clone"); PVStructurePtr o = instance(c, t); if(c.coin()) o->getNumberFields(); return dc->createPVStructure(o); }
    case 3: { c.label("member of a union"); PVUnionPtr u = dc->createPVUnion(getFieldCreate()->createFieldBuilder()->add("m", build(t))->createUnion()); return u->select<PVStructure>("m"); }
    case 4: { c.label("array element"); PVStructureArrayPtr a = dc->createPVStructureArray(std::tr1::static_pointer_cast<const Structure>(build(t))); a->append(2); return a->view()[c.u(2)]; }
    default: c.label("build()"); return std::tr1::static_pointer_cast<const Structure>(build(t))->build();
    }
}
template<class PVD> static void typed(const PVStructure& top, PVStructure& mtop, const std::string& path, size_t at, const PVFieldPtr& f, bool is, const char* what) {
    CHECK_EQ(!!mtop.getSubField<PVD>(path), is, "typed-name", what << " " << path); CHECK_EQ(!!top.getSubField<PVD>(at), is, "typed-number", what << " " << path);
    if(is) { CHECK(mtop.getSubFieldT<PVD>(path) == f && top.getSubFieldT<PVD>(path.c_str()) == f && mtop.getSubFieldT<PVD>(at) == f, "typed-same", what << " " << path); }
    else { MUST_THROW(mtop.getSubFieldT<PVD>(path), "typed-throws", what << " " << path); MUST_THROW(top.getSubFieldT<PVD>(at), "typed-throws", what << " " << path); MUST_THROW(top.getSubFieldT<PVD>(path.c_str()), "typed-throws", what << " " << path); }
}
PBT_TEST(large, 200, 8000)
{
    static const int kinds[] = { LWide, LWide, LDeep, LNames }; Large l = genLarge(c, kinds[c.u(4)], 3000); PVStructurePtr s = instance(c, l.t); std::vector<Node> m; number(l.t, "", "", -1, m); c.nontrivial(true);
    std::vector<PVField*> f(m.size()); f[0] = s.get(); for(size_t i = 0; i < m.size(); i++) if(m[i].t->k == KStruct) { auto& k = static_cast<PVStructure*>(f[i])->getPVFields(); CHECK_EQ(k.size(), m[i].kids.size(), "members", i); for(size_t j = 0; j < k.size(); j++) f[m[i].kids[j]] = k[j].get(); }
    CHECK_EQ(s->getNumberFields(), m.size(), "span", ""); CHECK(!s->getSubField(m.size()), "beyond", "");
    std::vector<size_t> at; for(int k = 0; k < 60; k++) at.push_back(c.u(m.size())); for(size_t k = m.size() > 6 ? m.size() - 6 : 0; k < m.size(); k++) at.push_back(k); for(size_t k = 64; k < m.size(); k *= 2) { at.push_back(k - 1); at.push_back(k); if(k + 1 < m.size()) at.push_back(k + 1); }
    for(size_t i : at) { const Node& n = m[i]; PVField* x = f[i]; CHECK_EQ(x->getFieldOffset(), n.at, "number", i); CHECK_EQ(x->getNextFieldOffset(), n.next, "next-number", i); CHECK_EQ(x->getNumberFields(), n.next - n.at, "span", i); CHECK(x->getFullName() == n.path && x->getFieldName() == n.name, "full-name", i); CHECK(x->getParent() == (n.parent < 0 ? 0 : f[n.parent]), "parent", i);
        if(i) { CHECK(s->getSubField(n.path).get() == x && s->getSubFieldT(n.path.c_str()).get() == x, "by-name", i); CHECK(s->getSubField(n.at).get() == x, "by-number", i); CHECK(!s->getSubField(n.path + "_") && !s->getSubField(n.path.substr(0, n.path.size() - 1) + "-"), "no-such", i); } }
    // the type of it
    StructureConstPtr t = std::tr1::static_pointer_cast<const Structure>(s->getStructure()->getField("large")->getType() == structure ? s->getStructure()->getField("large") : FieldConstPtr(s->getStructure())); for(int k = 0; k < 20 && t->getNumberFields(); k++) { size_t i = c.coin() ? t->getNumberFields() - 1 : c.u(t->getNumberFields()); std::string nm = t->getFieldName(i); CHECK_EQ(t->getFieldIndex(nm), i, "index", i); CHECK(t->getField(nm) == t->getField(i), "by-name", i); }
}
PBT_TEST(navigation, 60000, 2000000)
{
    TypeOpts o; o.depth = 4; o.nodes = 25; TP t = genStruct(c, o); c.desc << show(t); PVStructurePtr s = instance(c, t);
    std::vector<Node> m; number(t, "", "", -1, m); c.nontrivial(m.size() > 4); for(auto& n : m) if(n.t->k == KStruct && n.parent >= 0) { c.label("nested"); break; }
    if(s->getFieldName() != "") FAIL("top-name", s->getFieldName());
    CHECK(!s->getParent(), "top-parent", ""); CHECK(s->getStructure() == s->getField(), "type", ""); 
    // find every field by walking down only, so that no number is asked for yet
    std::vector<PVField*> f(m.size()); f[0] = s.get();
    for(size_t i = 0; i < m.size(); i++) if(m[i].t->k == KStruct) { auto& k = static_cast<PVStructure*>(f[i])->getPVFields(); CHECK_EQ(k.size(), m[i].kids.size(), "members", m[i].path); for(size_t j = 0; j < k.size(); j++) f[m[i].kids[j]] = k[j].get(); }
    // ask questions in any order
    size_t q = 4 + c.u(14); bool skipTop = c.coin(); if(!skipTop) s->getNumberFields();
    for(size_t k = 0; k < q; k++) {
        size_t i = c.u(m.size()); const Node& n = m[i]; PVField* x = f[i]; 
        switch(c.u(12)) {
        case 0: CHECK_EQ(x->getFieldOffset(), n.at, "number", n.path); break;
        case 1: CHECK_EQ(x->getNextFieldOffset(), n.next, "next-number", n.path); break;
        case 2: CHECK_EQ(x->getNumberFields(), n.next - n.at, "span", n.path); break;
        case 3: { CHECK_EQ(x->getFullName(), n.path, "full-name", ""); CHECK_EQ(x->getFieldName(), n.name, "name", ""); const PVField* p = x->getParent(); CHECK(p == (n.parent < 0 ? 0 : f[n.parent]), "parent", n.path); break; }
        case 4: if(i) CHECK(s->getSubField(n.path).get() == x && s->getSubFieldT(n.path.c_str()).get() == x, "by-name", n.path); break;
        case 5: if(i) CHECK(s->getSubField(n.at).get() == x && s->getSubFieldT(n.at).get() == x, "by-number", n.path); break;
        case 6: if(i) { // kinds
            const PVStructure& cs = *s; PVFieldPtr fp = x->shared_from_this(); bool sc = n.t->k == KScalar || n.t->k == KBString; ScalarType st = n.t->st;
            typed<PVField>(cs, *s, n.path, n.at, fp, true, "PVField"); typed<PVScalar>(cs, *s, n.path, n.at, fp, sc, "PVScalar"); typed<PVInt>(cs, *s, n.path, n.at, fp, sc && st == pvInt, "PVInt"); typed<PVUInt>(cs, *s, n.path, n.at, fp, sc && st == pvUInt, "PVUInt"); typed<PVByte>(cs, *s, n.path, n.at, fp, sc && st == pvByte, "PVByte"); typed<PVBoolean>(cs, *s, n.path, n.at, fp, sc && st == pvBoolean, "PVBoolean"); typed<PVDouble>(cs, *s, n.path, n.at, fp, sc && st == pvDouble, "PVDouble"); typed<PVString>(cs, *s, n.path, n.at, fp, sc && st == pvString, "PVString");
            typed<PVStructure>(cs, *s, n.path, n.at, fp, n.t->k == KStruct, "PVStructure"); typed<PVUnion>(cs, *s, n.path, n.at, fp, n.t->k == KUnion || n.t->k == KVariant, "PVUnion"); typed<PVScalarArray>(cs, *s, n.path, n.at, fp, n.t->k == KSArray, "PVScalarArray"); typed<PVStructureArray>(cs, *s, n.path, n.at, fp, n.t->k == KStructArr, "PVStructureArray"); typed<PVUnionArray>(cs, *s, n.path, n.at, fp, n.t->k == KUnionArr || n.t->k == KVariantArr, "PVUnionArray"); typed<PVDoubleArray>(cs, *s, n.path, n.at, fp, n.t->k == KSArray && st == pvDouble, "PVDoubleArray");
            break; }
        case 7: if(n.t->k == KStruct) { // relative to an inner structure
            PVStructure& in = static_cast<PVStructure&>(*x); size_t j = c.u(m.size() + 3); bool inside = j > n.at && j < n.next;
            CHECK((j < m.size() && inside ? in.getSubField(j).get() == f[j] : !in.getSubField(j)), "inner-number", "number " << j << " in " << n.path << " [" << n.at << "," << n.next << ")"); if(!inside) MUST_THROW(in.getSubFieldT(j), "inner-number-throws", j);
            if(inside) { std::string rel = n.path.empty() ? m[j].path : m[j].path.substr(n.path.size() + 1); CHECK(in.getSubField(rel).get() == f[j], "inner-name", rel << " in " << n.path); }
            break; }
        case 8: { // names that do not exist
            std::string p = n.path; 
            switch(c.u(10)) { case 8: p += '\0'; if(c.coin()) p += c.coin() ? ".value" : "x"; break; case 0: p += "."; break; case 1: p = "." + p; break; case 2: p += " "; break; case 3: p = " " + p; break; case 4: p += "x"; break; case 5: if(!p.empty()) p.erase(c.u(p.size()), 1); break; case 6: { size_t d = p.find('.'); if(d != std::string::npos) p.insert(d, "."); else p += ".a"; break; } case 7: p += ".value"; break; default: { p = genStr(c, 8, true); for(auto& ch : p) if(!ch) ch = '.'; } }
            int hit = -1; for(size_t j = 1; j < m.size(); j++) if(m[j].path == p) hit = (int)j;
            const PVStructure& cs = *s; if(hit < 0) { c.label("absent name"); bool nil = p.find('\0') != std::string::npos; CHECK(!s->getSubField(p) && (nil || !cs.getSubField(p.c_str())) && !s->getSubField<PVScalar>(p), "absent", pbt::quote(p)); MUST_THROW(s->getSubFieldT(p), "absent-throws", pbt::quote(p)); if(!nil) MUST_THROW(cs.getSubFieldT<PVField>(p.c_str()), "absent-throws", pbt::quote(p)); } else CHECK(s->getSubField(p).get() == f[hit], "by-name", p);
            break; }
        case 9: { size_t j = c.oneOf({ m.size(), m.size() + 1, (size_t)0, (size_t)-1, (size_t)1 << 32, m.size() * 2 }); CHECK(!s->getSubField(j), "absent-number", j); MUST_THROW(s->getSubFieldT(j), "absent-number-throws", j); MUST_THROW(s->getSubFieldT<PVField>(j), "absent-number-throws", j); break; }
        case 10: CHECK(!s->getSubField((const char*)0), "null-name", ""); MUST_THROW(s->getSubFieldT((const char*)0), "null-name", ""); break;
        default: CHECK(eq(describe(x->getField()), n.t), "field-type", n.path); break;
        }
    }
    // finally all of it
    for(size_t i = 0; i < m.size(); i++) { CHECK_EQ(f[i]->getFieldOffset(), m[i].at, "number", m[i].path); CHECK_EQ(f[i]->getNextFieldOffset(), m[i].next, "next-number", m[i].path); CHECK_EQ(f[i]->getFullName(), m[i].path, "full-name", ""); CHECK((const PVField*)f[i]->getParent() == (m[i].parent < 0 ? 0 : f[m[i].parent]), "parent", m[i].path); if(i) CHECK(s->getSubField(m[i].path).get() == f[i] && s->getSubField(i).get() == f[i], "lookup", m[i].path); }
    CHECK_EQ(s->getNumberFields(), m.size(), "count", "");
}
PBT_TEST(leaves, 20000, 300000)
{
    // fields that are not in a structure, values of unions and elements of arrays are trees of their own
    TypeOpts o; o.depth = 2; o.nodes = 8; TP t = genType(c, o); ValOpts vo; vo.big = false; VP v = genValue(c, t, vo); PVFieldPtr p = make(v); c.desc << show(t) << " = " << show(v).substr(0, 300); c.nontrivial(nodes(t) > 1);
    std::function<void(const PVFieldPtr&, const VP&)> rec = [&](const PVFieldPtr& p, const VP& v) {
        if(!p) return; const TP& t = v->t; bool top = !p->getParent();
        if(top) { CHECK_EQ(p->getFieldOffset(), (size_t)0, "top-number", ""); CHECK_EQ(p->getFieldName(), std::string(), "top-name", ""); CHECK_EQ(p->getFullName(), std::string(), "top-name", ""); CHECK_EQ(p->getNumberFields(), span(t), "top-span", ""); }
        switch(t->k) {
        case KStruct: { auto& k = static_cast<PVStructure&>(*p).getPVFields(); for(size_t i = 0; i < k.size(); i++) { CHECK(k[i]->getParent() == p.get(), "parent", ""); rec(k[i], v->kids[i]); } break; }
        case KUnion: case KVariant: { PVFieldPtr x = static_cast<PVUnion&>(*p).get(); if(x) { CHECK(!x->getParent(), "union-parent", ""); rec(x, v->kids[0]); } break; }
        case KStructArr: { PVStructureArray::const_svector d = static_cast<PVStructureArray&>(*p).view(); for(size_t i = 0; i < d.size(); i++) if(d[i]) { CHECK(!d[i]->getParent(), "element-parent", ""); rec(d[i], v->kids[i]); } break; }
        case KUnionArr: case KVariantArr: { PVUnionArray::const_svector d = static_cast<PVUnionArray&>(*p).view(); for(size_t i = 0; i < d.size(); i++) if(d[i]) { CHECK(!d[i]->getParent(), "element-parent", ""); rec(d[i], v->kids[i]); } break; }
        default: break;
        } };
    rec(p, v);
}
