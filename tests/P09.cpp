// P09: only well-formed types can be built, and they are what was asked for
#include "gen_pvd.hpp"
using namespace gp; using namespace pvd; using pbt::Ctx;

static TypeOpts small() { TypeOpts o; o.depth = 2; o.nodes = 5; o.wide = false; return o; }
static bool okName(const std::string& n) {
    if(n.empty() || (n[0] >= '0' && n[0] <= '9')) return false;
    for(char ch : n) if(!((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_')) return false;
    return true;
}
static bool okNames(const std::vector<std::string>& n) { std::set<std::string> s; for(auto& x : n) if(!okName(x) || !s.insert(x).second) return false; return true; }
static std::string anyName(Ctx& c) {
    static const char* pool[] = { "a", "b", "c", "value", "_x", "A9", "alarm" };
    switch(c.weighted({ 14, 1, 1, 1, 1, 1 })) {
    case 0: return pool[c.u(7)];
    case 1: return "";
    case 2: return std::string(1, (char)('0' + c.u(10))) + "a";
    case 3: return "a" + std::string(1, (char)c.u(256));
    case 4: return std::string(1, (char)c.u(256)) + "b";
    default: return c.oneOf<const char*>({ "a.b", "a b", " a", "a-", "caf\xc3\xa9", "a\n", "[", "z@", "`", "{a", "_/", ":" });
    }
}
static std::string idOf(const TP& t) {
    std::ostringstream s;
    switch(t->k) {
    case KScalar: return ScalarTypeFunc::name(t->st);
    case KBString: s << "string(" << t->bound << ")"; return s.str();
    case KSArray: s << ScalarTypeFunc::name(t->st); if(t->cls == 0) s << "[]"; else if(t->cls == 1) s << "<" << t->bound << ">"; else s << "[" << t->bound << "]"; return s.str();
    case KStruct: case KUnion: return t->id;
    case KVariant: return "any";
    case KVariantArr: return "any[]";
    default: return t->kids[0]->id + "[]";
    }
}
// everything a type says about itself agrees with what was asked for
template<class S> static void members(Ctx& c, const S& s, const TP& t, const FieldConstPtr& self) {
    CHECK_EQ(s.getNumberFields(), t->kids.size(), "members", ""); CHECK_EQ(s.getFields().size(), t->kids.size(), "members", ""); CHECK_EQ(s.getFieldNames().size(), t->kids.size(), "members", "");
    for(size_t i = 0; i < t->kids.size(); i++) {
        CHECK_EQ(s.getFieldName(i), t->names[i], "member-name", ""); CHECK_EQ(s.getFieldNames()[i], t->names[i], "member-name", ""); CHECK_EQ(s.getFieldIndex(t->names[i]), i, "member-index", "");
        FieldConstPtr f = s.getField(i); CHECK(f && f == s.getFields()[i] && f == s.getField(t->names[i]) && f == s.getFieldT(i) && f == s.getFieldT(t->names[i]), "member-lookup", t->names[i]);
        bool sc = t->kids[i]->k == KScalar || t->kids[i]->k == KBString; CHECK_EQ(!!s.template getField<Scalar>(t->names[i]), sc, "member-typed", t->names[i]); CHECK_EQ(!!s.template getField<Structure>(i), t->kids[i]->k == KStruct, "member-typed", t->names[i]);
        if(!sc) { MUST_THROW(s.template getFieldT<Scalar>(t->names[i]), "typed-throws", ""); MUST_THROW(s.template getFieldT<Scalar>(i), "typed-throws", ""); } else CHECK(s.template getFieldT<Scalar>(i) == f && s.template getFieldT<Scalar>(t->names[i]) == f, "member-typed", "");
    }
    std::string no = c.coin() ? anyName(c) : (t->names.empty() ? "q" : t->names[c.u(t->names.size())] + (c.coin() ? "q" : " "));
    bool has = false; for(auto& n : t->names) has = has || n == no;
    if(!has) { CHECK(!s.getField(no) && s.getFieldIndex(no) == (size_t)-1 && !s.template getField<Scalar>(no), "absent", pbt::quote(no)); MUST_THROW(s.getFieldT(no), "absent-throws", pbt::quote(no)); }
    size_t past = t->kids.size() + c.u(3); MUST_THROW(s.getField(past), "past-end", ""); MUST_THROW(s.getFieldT(past), "past-end", ""); MUST_THROW(s.getFieldName(past), "past-end", "");
}
static void inspect(Ctx& c, const FieldConstPtr& f, const TP& t) {
    TP d = describe(f); CHECK(eq(d, t), "built", "asked for " << show(t) << ", got " << show(d));
    std::function<void(const FieldConstPtr&, const TP&)> rec = [&](const FieldConstPtr& f, const TP& t) {
        CHECK_EQ(f->getID(), idOf(t), "id", "");
        static const Type ty[] = { scalar, scalar, scalarArray, structure, union_, union_, structureArray, unionArray, unionArray }; CHECK_EQ((int)f->getType(), (int)ty[t->k], "kind", "");
        switch(t->k) {
        case KStruct: members(c, static_cast<const Structure&>(*f), t, f); for(size_t i = 0; i < t->kids.size(); i++) rec(static_cast<const Structure&>(*f).getField(i), t->kids[i]); break;
        case KUnion: { const Union& u = static_cast<const Union&>(*f); members(c, u, t, f); CHECK(!u.isVariant(), "variant", ""); for(size_t i = 0; i < t->kids.size(); i++) rec(u.getField(i), t->kids[i]);
            bool arr = c.coin(); ScalarType st = genScalarType(c); int want = -1; // first exact match, else first of the kind
            for(size_t i = t->kids.size(); i-- > 0;) if(arr ? t->kids[i]->k == KSArray : (t->kids[i]->k == KScalar || t->kids[i]->k == KBString)) want = (int)i;
            for(size_t i = t->kids.size(); i-- > 0;) if((arr ? t->kids[i]->k == KSArray : (t->kids[i]->k == KScalar || t->kids[i]->k == KBString)) && t->kids[i]->st == st) want = (int)i;
            CHECK_EQ((int)u.guess(arr ? scalarArray : scalar, st), want, "guess", "for " << ScalarTypeFunc::name(st)); MUST_THROW(u.guess(structure, st), "guess-kind", ""); break; }
        case KVariant: CHECK(static_cast<const Union&>(*f).isVariant() && static_cast<const Union&>(*f).getNumberFields() == 0, "variant", ""); break;
        case KSArray: { const ScalarArray& a = static_cast<const ScalarArray&>(*f); CHECK_EQ((int)a.getElementType(), (int)t->st, "element", ""); CHECK_EQ((int)a.getArraySizeType(), t->cls == 0 ? (int)Array::variable : t->cls == 1 ? (int)Array::bounded : (int)Array::fixed, "size-class", ""); CHECK_EQ(a.getMaximumCapacity(), t->bound, "bound", ""); break; }
        case KBString: CHECK_EQ(static_cast<const BoundedString&>(*f).getMaximumLength(), t->bound, "bound", ""); CHECK_EQ((int)static_cast<const Scalar&>(*f).getScalarType(), (int)pvString, "element", ""); break;
        case KStructArr: rec(static_cast<const StructureArray&>(*f).getStructure(), t->kids[0]); break;
        case KUnionArr: rec(static_cast<const UnionArray&>(*f).getUnion(), t->kids[0]); break;
        default: break;
        } };
    rec(f, t);
    // the ready-made value is of this very type
    if(c.chance(1, 4)) { PVFieldPtr v = f->build(); CHECK(v->getField() == f, "build", ""); }
}
// one argument list for the factory
struct Args { std::vector<std::string> names; std::vector<TP> kids; StringArray n; FieldConstPtrArray f; bool ok; };
static Args genArgs(Ctx& c) {
    Args a; size_t n = c.u(6); std::set<std::string> used;
    for(size_t i = 0; i < n; i++) { std::string nm = c.chance(1, 10) ? anyName(c) : genName(c, used); used.insert(nm); a.names.push_back(nm); a.kids.push_back(c.chance(1, 25) ? TP() : genType(c, small())); }
    a.ok = okNames(a.names); for(auto& k : a.kids) a.ok = a.ok && k;
    a.n.assign(a.names.begin(), a.names.end()); for(auto& k : a.kids) a.f.push_back(k ? buildBy(c, k) : FieldConstPtr());
    if(c.chance(1, 20)) { if(c.coin() && !a.n.empty()) { a.n.pop_back(); } else a.n.push_back("zz"); a.ok = false; }
    return a;
}
static std::string anyId(Ctx& c) { switch(c.weighted({ 5, 1, 1, 1, 1 })) { case 0: return "structure"; case 1: return ""; case 2: return "any"; case 3: return "union"; default: return genStr(c, 12); } }
static std::string showArgs(const Args& a) { std::ostringstream s; for(size_t i = 0; i < a.n.size(); i++) s << pbt::quote(a.n[i]) << " "; s << ":"; for(auto& k : a.kids) s << (k ? show(k) : std::string("null")) << " "; return s.str(); }

PBT_TEST(factory, 120000, 5000000)
{
    FieldCreatePtr fc = getFieldCreate(); Args a = genArgs(c); bool withId = c.coin(); std::string id = withId ? anyId(c) : "";
    size_t what = c.u(4); static const char* w[] = { "structure ", "union ", "appendFields ", "appendField " }; c.desc << w[what] << (withId ? pbt::quote(id) : "") << showArgs(a); c.nontrivial(a.names.size() > 1);
    FieldConstPtr r; TP want; bool ok = a.ok && !(withId && id.empty());
    TP base; StructureConstPtr fb;
    if(what >= 2) { TypeOpts o = small(); base = genStruct(c, o); fb = std::tr1::static_pointer_cast<const Structure>(build(base)); ok = a.ok; c.desc << " onto " << show(base);
        if(what == 3) { if(a.n.empty()) return; if(a.n.size() != a.f.size()) return; }
        std::vector<std::string> all(base->names); size_t k = what == 3 ? 1 : a.names.size(); ok = ok || (what == 3 && a.kids[0] != 0); for(size_t i = 0; i < k; i++) all.push_back(a.names[i]); ok = ok && okNames(all);
        if(ok) { std::vector<TP> kk(base->kids); for(size_t i = 0; i < k; i++) kk.push_back(a.kids[i]); want = mkStruct(all, kk, base->id); }
    } else if(ok) {
        if(what == 0) want = mkStruct(a.names, a.kids, withId ? id : "structure");
        else if(a.names.empty()) { if(withId && id == "any") want = mkKind(KVariant); else ok = false; }
        else want = mkUnion(a.names, a.kids, withId ? id : "union");
    }
    c.label(ok ? "legal" : "refused"); std::string err; bool threw = false;
    try {
        switch(what) {
        case 0: r = withId ? fc->createStructure(id, a.n, a.f) : a.n.empty() && a.f.empty() && c.coin() ? fc->createStructure() : fc->createStructure(a.n, a.f); break;
        case 1: r = withId ? fc->createUnion(id, a.n, a.f) : fc->createUnion(a.n, a.f); break;
        case 2: r = fc->appendFields(fb, a.n, a.f); break;
        default: r = fc->appendField(fb, a.n[0], a.f[0]); break;
        }
    } catch(std::exception& e) { threw = true; err = e.what(); }
    CHECK(threw == !ok, ok ? "legal-refused" : "illegal-accepted", err << (r ? show(describe(r)) : ""));
    if(ok) inspect(c, r, want);
    if(base) CHECK(eq(describe(fb), base), "base-changed", "");
}
PBT_TEST(elementary, 30000, 500000)
{
    FieldCreatePtr fc = getFieldCreate(); int st = c.chance(1, 6) ? (int)c.oneOf({ 12, 13, 100, -1, -100 }) : (int)c.u(12); size_t n = c.oneOf({ (size_t)1, (size_t)0, (size_t)2, (size_t)1000, (size_t)0x7fffffff, (size_t)0x100000000ull }); if(c.coin()) n = 1 + c.u(100000);
    bool okS = st >= 0 && st < 12; FieldConstPtr r; TP want; bool ok = okS; bool threw = false; size_t what = c.u(11); c.desc << "elementary " << what << " type " << st << " size " << n; c.nontrivial();
    TP e = genType(c, small()); FieldConstPtr fe = c.chance(1, 10) ? FieldConstPtr() : buildBy(c, e); if(what >= 4) c.desc << " element " << (fe ? show(e) : "null");
    try { switch(what) {
        case 0: r = fc->createScalar((ScalarType)st); if(okS) want = mkScalar((ScalarType)st); break;
        case 1: if(okS) want = mkSArray((ScalarType)st); r = fc->createScalarArray((ScalarType)st); break;
        case 2: if(!n) return; if(okS) want = mkSArray((ScalarType)st, 2, n); r = fc->createFixedScalarArray((ScalarType)st, n); break;
        case 3: if(!n) return; if(okS) want = mkSArray((ScalarType)st, 1, n); r = fc->createBoundedScalarArray((ScalarType)st, n); break;
        case 4: ok = n > 0; want = ok ? mkBString(n) : TP(); r = fc->createBoundedString(n); break;
        case 5: ok = fe && e->k == KStruct; if(fe && e->k != KStruct) return; if(ok) want = mkArr(KStructArr, e); r = fc->createStructureArray(std::tr1::static_pointer_cast<const Structure>(fe)); break;
        case 6: ok = fe && (e->k == KUnion || e->k == KVariant); if(fe && !ok) return; if(ok) want = e->k == KVariant ? mkKind(KVariantArr) : mkArr(KUnionArr, e); r = fc->createUnionArray(std::tr1::static_pointer_cast<const Union>(fe)); break;
        case 7: ok = true; want = mkKind(KVariant); r = fc->createVariantUnion(); break;
        case 8: ok = true; want = mkKind(KVariantArr); r = fc->createVariantUnionArray(); break;
        default: { // array of anything through the builder
            ok = fe && e->k != KBString && (e->k == KScalar || e->k == KStruct || e->k == KUnion || e->k == KVariant);
            if(ok) want = mkStruct({ "a" }, { e->k == KScalar ? mkSArray(e->st) : e->k == KStruct ? mkArr(KStructArr, e) : e->k == KUnion ? mkArr(KUnionArr, e) : mkKind(KVariantArr) });
            r = fc->createFieldBuilder()->addArray("a", fe)->createStructure(); }
        } } catch(std::exception&) { threw = true; }
    CHECK(threw == !ok, ok ? "legal-refused" : "illegal-accepted", "elementary " << what); if(ok) inspect(c, r, want); c.label(ok ? "legal" : "refused");
    // names of the scalar types
    if(okS) { CHECK_EQ((int)ScalarTypeFunc::getScalarType(ScalarTypeFunc::name((ScalarType)st)), st, "scalar-name", ""); bool I = st >= 1 && st <= 8; CHECK(ScalarTypeFunc::isInteger((ScalarType)st) == I && ScalarTypeFunc::isUInteger((ScalarType)st) == (st >= 5 && st <= 8) && ScalarTypeFunc::isNumeric((ScalarType)st) == (st >= 1 && st <= 10) && ScalarTypeFunc::isPrimitive((ScalarType)st) == (st <= 10), "scalar-class", "");
        CHECK_EQ(ScalarTypeFunc::elementSize((ScalarType)st), st == pvString ? sizeof(std::string) : width((ScalarType)st), "scalar-size", ""); }
    static const char* SN[] = {"boolean", "byte", "short", "int", "long", "ubyte", "ushort", "uint", "ulong", "float", "double", "string"};
    if(okS) { std::ostringstream o; o << (ScalarType)st; CHECK_EQ(std::string(ScalarTypeFunc::name((ScalarType)st)), std::string(SN[st]), "scalar-text", ""); CHECK_EQ(o.str(), std::string(SN[st]), "scalar-text", "");
        size_t len = c.u(5); shared_vector<void> mem(ScalarTypeFunc::allocArray((ScalarType)st, len)); CHECK_EQ(mem.size(), len * (st == pvString ? sizeof(std::string) : width((ScalarType)st)), "alloc-size", "of " << len << " " << SN[st]); CHECK_EQ((int)mem.original_type(), st, "alloc-type", ""); }
    else { MUST_THROW({ std::ostringstream o; o << (ScalarType)st; }, "scalar-range", ""); MUST_THROW(ScalarTypeFunc::allocArray((ScalarType)st, 1), "scalar-range", ""); }
    // names of the kinds of types
    static const char* TN[] = {"scalar", "scalarArray", "structure", "structureArray", "union", "unionArray"}; int ty = c.chance(1, 4) ? c.oneOf({-1, 6, 7, 100, -100, 255}) : (int)c.u(6);
    if(ty >= 0 && ty < 6) { std::ostringstream o; o << (Type)ty; CHECK_EQ(std::string(TypeFunc::name((Type)ty)), std::string(TN[ty]), "type-text", ""); CHECK_EQ(o.str(), std::string(TN[ty]), "type-text", ""); }
    else { MUST_THROW(TypeFunc::name((Type)ty), "type-range", ty); MUST_THROW({ std::ostringstream o; o << (Type)ty; }, "type-range", ty); }
    if(okS) { CHECK_EQ((int)ScalarTypeFunc::getScalarType(SN[st]), st, "scalar-name", ""); }
    else { MUST_THROW(ScalarTypeFunc::name((ScalarType)st), "scalar-range", ""); MUST_THROW(ScalarTypeFunc::elementSize((ScalarType)st), "scalar-range", ""); }
    std::string bad = genStr(c, 8); bool known = false; for(int i = 0; i < 12; i++) known = known || bad == ScalarTypeFunc::name((ScalarType)i); if(!known) MUST_THROW(ScalarTypeFunc::getScalarType(bad), "scalar-unknown", pbt::quote(bad));
}
// ---- builder histories against a model
struct MB { bool idSet = false; std::string id; std::vector<std::string> names; std::vector<TP> kids; int parent = -1; std::string nested; bool un = false, arr = false, create = true; FieldBuilderPtr b; };
static int find(const MB& m, const std::string& n) { for(size_t i = 0; i < m.names.size(); i++) if(m.names[i] == n) return (int)i; return -1; }
static bool finish(const MB& m, bool un, TP& out) { // false: must be refused
    if(m.names.empty() && un) { out = mkKind(KVariant); return true; }
    if(!okNames(m.names) || (m.idSet && m.id.empty())) return false;
    out = un ? mkUnion(m.names, m.kids, m.idSet ? m.id : "union") : mkStruct(m.names, m.kids, m.idSet ? m.id : "structure"); return true;
}
static int kindOf(const TP& t) { static const int ty[] = { 0, 0, 1, 2, 4, 4, 3, 5, 5 }; return ty[t->k]; } // wire-independent kind classes
static bool addTo(MB& m, const std::string& n, const TP& t) {
    int i = find(m, n); if(i < 0) { m.names.push_back(n); m.kids.push_back(t); return true; }
    return kindOf(m.kids[i]) == kindOf(t) && eq(m.kids[i], t);
}
PBT_TEST(builder, 100000, 5000000)
{
    FieldCreatePtr fc = getFieldCreate(); std::vector<MB> bs(1);
    if(c.chance(1, 4)) { TP s = genStruct(c, small()); bs[0].idSet = true; bs[0].id = s->id; bs[0].names = s->names; bs[0].kids = s->kids; StructureConstPtr fs = std::tr1::static_pointer_cast<const Structure>(build(s)); bs[0].b = c.coin() ? fc->createFieldBuilder(fs) : FieldBuilder::begin(fs); c.desc << "from " << show(s); c.label("from structure"); }
    else bs[0].b = c.coin() ? fc->createFieldBuilder() : FieldBuilder::begin();
    size_t n = 3 + c.u(18), made = 0; size_t cur = 0; std::vector<std::pair<FieldConstPtr, TP> > results;
    for(size_t i = 0; i < n; i++) {
        if(c.chance(1, 8)) cur = c.u(bs.size());
        MB& m = bs[cur]; size_t op = c.weighted({ 6, 2, 3, 4, 3, 2, 1 }); std::string nm = anyName(c); bool threw = false, ok = true; std::string err;
        c.desc << " b" << cur << ".";
        FieldBuilderPtr ret = m.b; FieldBuilderPtr self = m.b;
        switch(op) {
        case 0: { // one of the add functions
            size_t how = c.u(7); ScalarType st = genScalarType(c); size_t z = 1 + c.u(300); TP t = c.coin() ? genType(c, small()) : mkScalar(st), e; FieldConstPtr f; TP add; c.desc << "add" << how << " " << pbt::quote(nm);
            try { switch(how) {
                case 0: add = mkScalar(st); c.desc << show(add); ret = m.b->add(nm, st); break;
                case 1: add = mkBString(z); c.desc << show(add); ret = m.b->addBoundedString(nm, z); break;
                case 2: if(!c.chance(1, 12)) { f = buildBy(c, t); add = t; } c.desc << (add ? show(add) : "null"); ret = m.b->add(nm, f); break;
                case 3: add = mkSArray(st); c.desc << show(add); ret = m.b->addArray(nm, st); break;
                case 4: add = mkSArray(st, 2, z); c.desc << show(add); ret = m.b->addFixedArray(nm, st, z); break;
                case 5: add = mkSArray(st, 1, z); c.desc << show(add); ret = m.b->addBoundedArray(nm, st, z); break;
                default: if(!c.chance(1, 12)) { f = buildBy(c, t); if(t->k == KScalar) add = mkSArray(t->st); else if(t->k == KStruct) add = mkArr(KStructArr, t); else if(t->k == KUnion) add = mkArr(KUnionArr, t); else if(t->k == KVariant) add = mkKind(KVariantArr); } c.desc << "[] of " << show(t); ret = m.b->addArray(nm, f); break;
                } } catch(std::exception& e) { threw = true; err = e.what(); }
            ok = add && addTo(m, nm, add); break; }
        case 1: { std::string id = anyId(c); c.desc << "setId " << pbt::quote(id); ret = m.b->setId(id); m.idSet = true; m.id = id; break; }
        case 2: { // create
            bool un = c.coin(); FieldConstPtr r; TP want; c.desc << (un ? "createUnion" : "createStructure"); try { if(un) r = m.b->createUnion(); else r = m.b->createStructure(); } catch(std::exception& e) { threw = true; err = e.what(); }
            ok = m.parent < 0 && finish(m, un, want); if(ok && !threw) { inspect(c, r, want); results.push_back(std::make_pair(r, want)); m.idSet = false; m.id.clear(); m.names.clear(); m.kids.clear(); made++; } break; }
        case 3: { // nested
            if(bs.size() > 7) break;
            bool un = c.coin(), arr = c.chance(1, 3); MB k; k.parent = (int)cur; k.nested = nm; k.un = un; k.arr = arr; c.desc << "addNested" << (un ? "Union" : "Structure") << (arr ? "Array " : " ") << pbt::quote(nm);
            int at = find(m, nm); if(at >= 0) { const TP& t = m.kids[at]; bool same = un ? (arr ? t->k == KUnionArr || t->k == KVariantArr : t->k == KUnion || t->k == KVariant) : (arr ? t->k == KStructArr : t->k == KStruct); ok = same; if(same) { c.label("reopened"); k.create = false; k.idSet = true; TP s = arr && t->k != KVariantArr ? t->kids[0] : t; k.id = s->k == KVariant || s->k == KVariantArr ? "any" : s->id; k.names = s->names; if(s->k != KVariantArr) k.kids = s->kids; } }
            try { FieldBuilderPtr b = un ? (arr ? m.b->addNestedUnionArray(nm) : m.b->addNestedUnion(nm)) : (arr ? m.b->addNestedStructureArray(nm) : m.b->addNestedStructure(nm)); k.b = b; ret = self; } catch(std::exception& e) { threw = true; err = e.what(); }
            if(!threw && ok) { CHECK(k.b != m.b, "nested-builder", ""); bs.push_back(k); cur = bs.size() - 1; }
            CHECK(threw == !ok, ok ? "legal-refused" : "illegal-accepted", "nested " << err); continue; }
        case 4: { // end nested
            c.desc << "endNested"; try { ret = m.b->endNested(); } catch(std::exception& e) { threw = true; err = e.what(); }
            TP t; if(m.parent < 0) ok = false; else { ok = finish(m, m.un, t); MB& p = bs[m.parent]; 
                if(ok) { TP w = m.arr ? (t->k == KVariant ? mkKind(KVariantArr) : mkArr(m.un ? KUnionArr : KStructArr, t)) : t; if(m.create) ok = addTo(p, m.nested, w); else { int at = find(p, m.nested); if(at < 0) ok = false; else p.kids[at] = w; } }
                if(ok) { self = p.b; cur = m.parent; } }
            break; }
        case 5: if(!results.empty()) { size_t k = c.u(results.size()); CHECK(eq(describe(results[k].first), results[k].second), "later-changed", "a finished type changed"); c.desc << "recheck"; } break;
        default: c.desc << "-"; break;
        }
        CHECK(threw == !ok, ok ? "legal-refused" : "illegal-accepted", "step " << i << " " << err);
        if(!threw) CHECK(ret == self, "returned-builder", "step " << i); else c.label("refused");
    }
    // unwind: close what is open, build, compare
    TP want; bool ok = finish(bs[0], false, want); FieldConstPtr r; try { r = bs[0].b->createStructure(); } catch(std::exception&) {}
    CHECK(!!r == ok, ok ? "legal-refused" : "illegal-accepted", "final createStructure"); if(ok) { inspect(c, r, want); c.nontrivial(nodes(want) > 2); }
    if(made) c.label("builder reused"); if(bs.size() > 2) c.label("nested builders"); for(auto& x : results) CHECK(eq(describe(x.first), x.second), "later-changed", "");
}
