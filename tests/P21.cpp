// P21: standard structures and ValueBuilder
#include "gen_pvd.hpp"
#include <map>
#include <set>
#include <list>
using namespace gp;
using namespace epics::pvData;
namespace {
using std::string; using std::vector;
TP tAlarm() { return mkStruct({"severity", "status", "message"}, {mkScalar(pvInt), mkScalar(pvInt), mkScalar(pvString)}, "alarm_t"); }
TP tTime() { return mkStruct({"secondsPastEpoch", "nanoseconds", "userTag"}, {mkScalar(pvLong), mkScalar(pvInt), mkScalar(pvInt)}, "time_t"); }
TP tDisplay() { return mkStruct({"limitLow", "limitHigh", "description", "format", "units"}, {mkScalar(pvDouble), mkScalar(pvDouble), mkScalar(pvString), mkScalar(pvString), mkScalar(pvString)}, "display_t"); }
TP tControl() { return mkStruct({"limitLow", "limitHigh", "minStep"}, {mkScalar(pvDouble), mkScalar(pvDouble), mkScalar(pvDouble)}, "control_t"); }
TP tBoolAlarm() { return mkStruct({"active", "falseSeverity", "trueSeverity", "changeStateSeverity"}, {mkScalar(pvBoolean), mkScalar(pvInt), mkScalar(pvInt), mkScalar(pvInt)}, "valueAlarm_t"); }
TP tEnumAlarm() { return mkStruct({"active", "stateSeverity", "changeStateSeverity"}, {mkScalar(pvBoolean), mkScalar(pvInt), mkScalar(pvInt)}, "valueAlarm_t"); }
TP tNumAlarm(ScalarType s) { return mkStruct({"active", "lowAlarmLimit", "lowWarningLimit", "highWarningLimit", "highAlarmLimit", "lowAlarmSeverity", "lowWarningSeverity", "highWarningSeverity", "highAlarmSeverity", "hysteresis"}, {mkScalar(pvBoolean), mkScalar(s), mkScalar(s), mkScalar(s), mkScalar(s), mkScalar(pvInt), mkScalar(pvInt), mkScalar(pvInt), mkScalar(pvInt), mkScalar(pvByte)}, "valueAlarm_t"); }
TP tEnum() { return mkStruct({"index", "choices"}, {mkScalar(pvInt), mkSArray(pvString)}, "enum_t"); }
const ScalarType allST[] = {pvBoolean, pvByte, pvShort, pvInt, pvLong, pvUByte, pvUShort, pvUInt, pvULong, pvFloat, pvDouble, pvString};
void isType(const FieldConstPtr& f, const TP& t, const char* key) { CHECK(!!f, key, "NULL"); CHECK(show(describe(f)) == show(t) && f == build(t), key, "got " + show(describe(f)) + " expected " + show(t)); }
PBT_TEST(standard, 20000, 400000) {
    static const char* pn[] = {"alarm", "timeStamp", "display", "control", "valueAlarm"}; unsigned set = c.u(32); vector<int> ord; for(int i = 0; i < 5; i++) if(set >> i & 1) ord.push_back(i); for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.u((uint32_t)i)]); string p; for(size_t i = 0; i < ord.size(); i++) { if(i) p += c.chance(1, 4) ? ", " : ","; p += pn[ord[i]]; if(c.chance(1, 10)) { p += ","; p += pn[ord[i]]; } }
    if(c.chance(1, 10)) { if(!p.empty()) p += ","; p += "value"; } int kind = c.u(9); ScalarType st = allST[c.u(12)]; TypeOpts to; to.depth = 2; to.nodes = 6; StandardFieldPtr sf = getStandardField(); StandardPVFieldPtr sp = getStandardPVField(); c.desc << kind << " " << ScalarTypeFunc::name(st) << " '" << p << "'"; c.nontrivial(ord.size() > 1); bool va = set >> 4 & 1;
    TP v, valarm; string id; StructureConstPtr got; PVStructurePtr pv; bool threw = false; StringArray ch; int nc = c.u(4); for(int i = 0; i < nc; i++) ch.push_back(genStr(c, 6)); bool hasPV = true; TP el;
    auto num = [&]() { if(st == pvBoolean) valarm = tBoolAlarm(); else if(st != pvString) valarm = tNumAlarm(st); };
    switch(kind) { case 0: case 6: v = mkScalar(st); id = "epics:nt/NTScalar:1.0"; num(); break; case 1: case 7: v = mkSArray(st); id = "epics:nt/NTScalarArray:1.0"; num(); break; case 2: v = tEnum(); id = "epics:nt/NTEnum:1.0"; valarm = tEnumAlarm(); break; case 3: el = genStruct(c, to); v = mkArr(KStructArr, el); id = "epics:nt/NTStructureArray:1.0"; break; case 4: el = genUnion(c, to); v = mkArr(KUnionArr, el); id = "epics:nt/NTUnionArray:1.0"; break; case 5: el = genUnion(c, to); v = el; id = "epics:nt/NTUnion:1.0"; hasPV = false; break; default: v = mkKind(KVariant); id = "epics:nt/NTUnion:1.0"; hasPV = false; }
    if(el) c.desc << " " << show(el);
    try { switch(kind) { case 0: case 6: got = sf->scalar(st, p); break; case 1: case 7: got = sf->scalarArray(st, p); break; case 2: got = sf->enumerated(p); break; case 3: got = sf->structureArray(std::tr1::static_pointer_cast<const Structure>(build(el)), p); break; case 4: got = sf->unionArray(std::tr1::static_pointer_cast<const Union>(build(el)), p); break; case 5: got = sf->regUnion(std::tr1::static_pointer_cast<const Union>(build(el)), p); break; default: got = sf->variantUnion(p); } } catch(std::logic_error& e) { threw = true; }
    CHECK_EQ(threw, va && !valarm, "value_alarm", "refusing " + p + " for " + show(v)); bool pthrew = false;
    if(hasPV) { try { switch(kind) { case 0: case 6: pv = sp->scalar(st, p); break; case 1: case 7: pv = sp->scalarArray(st, p); break; case 2: pv = sp->enumerated(ch, p); break; case 3: pv = sp->structureArray(std::tr1::static_pointer_cast<const Structure>(build(el)), p); break; default: pv = sp->unionArray(std::tr1::static_pointer_cast<const Union>(build(el)), p); } } catch(std::logic_error& e) { pthrew = true; } CHECK_EQ(pthrew, threw, "pv_refuses", "StandardPVField"); }
    if(threw) { c.label("refused"); return; }
    vector<string> n = {"value"}; vector<TP> k = {v}; TP props[5] = {tAlarm(), tTime(), tDisplay(), tControl(), valarm}; for(int i = 0; i < 5; i++) if(set >> i & 1) { n.push_back(pn[i]); k.push_back(props[i]); } TP want = mkStruct(n, k, id); isType(got, want, "structure");
    if(hasPV) { CHECK(pv->getStructure() == got, "pv_type", "StandardPVField makes " + show(describe(pv->getStructure()))); VP w = defaultValue(want); if(kind == 2) w->kids[0]->kids[1]->strs = ch; string d = diff(load(*pv), w); CHECK(d.empty(), "pv_value", d); } }
PBT_TEST(parts, 300, 3000) {
    StandardFieldPtr sf = getStandardField(); c.nontrivial(true); int w = c.u(17); c.desc << w; StringArray ch; for(int i = c.u(4); i > 0; i--) ch.push_back(genStr(c, 5));
    switch(w) { case 0: isType(sf->alarm(), tAlarm(), "alarm"); break; case 1: isType(sf->timeStamp(), tTime(), "timeStamp"); break; case 2: isType(sf->display(), tDisplay(), "display"); break; case 3: isType(sf->control(), tControl(), "control"); break; case 4: isType(sf->booleanAlarm(), tBoolAlarm(), "booleanAlarm"); break; case 5: isType(sf->enumeratedAlarm(), tEnumAlarm(), "enumeratedAlarm"); break;
    case 6: isType(sf->byteAlarm(), tNumAlarm(pvByte), "byteAlarm"); break; case 7: isType(sf->shortAlarm(), tNumAlarm(pvShort), "shortAlarm"); break; case 8: isType(sf->intAlarm(), tNumAlarm(pvInt), "intAlarm"); break; case 9: isType(sf->longAlarm(), tNumAlarm(pvLong), "longAlarm"); break; case 10: isType(sf->ubyteAlarm(), tNumAlarm(pvUByte), "ubyteAlarm"); break; case 11: isType(sf->ushortAlarm(), tNumAlarm(pvUShort), "ushortAlarm"); break; case 12: isType(sf->uintAlarm(), tNumAlarm(pvUInt), "uintAlarm"); break; case 13: isType(sf->ulongAlarm(), tNumAlarm(pvULong), "ulongAlarm"); break; case 14: isType(sf->floatAlarm(), tNumAlarm(pvFloat), "floatAlarm"); break; case 15: isType(sf->doubleAlarm(), tNumAlarm(pvDouble), "doubleAlarm"); break;
    default: isType(sf->enumerated(), tEnum(), "enumerated"); { PVStructurePtr pv = getStandardPVField()->enumerated(ch); VP v = defaultValue(tEnum()); v->kids[1]->strs = ch; string d = diff(load(*pv), v); CHECK(d.empty(), "enumerated_value", d); } } }
// ---- ValueBuilder
struct N { bool st; string id; VP leaf; std::map<string, N> kids; N() : st(true) {} };
VP value(const N& n) { if(!n.st) return n.leaf; vector<string> nm; vector<TP> k; vector<VP> v; for(auto& p : n.kids) { nm.push_back(p.first); VP x = value(p.second); v.push_back(x); k.push_back(x->t); } VP r = defaultValue(mkStruct(nm, k, n.id.empty() ? "structure" : n.id)); r->kids = v; return r; }
bool cloneable(const TP& t) { if(t->k == KScalar) return true; if(t->k != KStruct) return false; for(auto& k : t->kids) if(!cloneable(k)) return false; return true; }
void fill(N& n, const VP& v) { n.id = v->t->id; for(size_t i = 0; i < v->kids.size(); i++) { N& k = n.kids[v->t->names[i]]; if(v->kids[i]->t->k == KStruct) { fill(k, v->kids[i]); } else { k = N(); k.st = false; k.leaf = v->kids[i]; } } }
// would adding v over n be refused part way?
bool clash(const N& n, const VP& v) { for(size_t i = 0; i < v->kids.size(); i++) { auto it = n.kids.find(v->t->names[i]); if(it == n.kids.end()) continue; bool s = v->kids[i]->t->k == KStruct; if(s != it->second.st) return true; if(s && clash(it->second, v->kids[i])) return true; } return false; }
template<ScalarType S> void addS(ValueBuilder& b, const string& n, const VP& v) { typedef typename ScalarTypeTraits<S>::type T; T x; memset((void*)&x, 0, sizeof x); memcpy(&x, &v->num, sizeof x); b.add<S>(n, x); }
template<class T> void addA(ValueBuilder& b, const string& n, const VP& v) { shared_vector<T> a(v->nums.size()); for(size_t i = 0; i < a.size(); i++) memcpy(&a[i], &v->nums[i], sizeof(T)); shared_vector<const T> f(freeze(a)); b.add(n, static_shared_vector_cast<const void>(f)); }
void add(ValueBuilder& b, const string& n, const VP& v) {
    if(v->t->k == KScalar) switch(v->t->st) { case pvBoolean: addS<pvBoolean>(b, n, v); break; case pvByte: addS<pvByte>(b, n, v); break; case pvShort: addS<pvShort>(b, n, v); break; case pvInt: addS<pvInt>(b, n, v); break; case pvLong: addS<pvLong>(b, n, v); break; case pvUByte: addS<pvUByte>(b, n, v); break; case pvUShort: addS<pvUShort>(b, n, v); break; case pvUInt: addS<pvUInt>(b, n, v); break; case pvULong: addS<pvULong>(b, n, v); break; case pvFloat: addS<pvFloat>(b, n, v); break; case pvDouble: addS<pvDouble>(b, n, v); break; case pvString: b.add<pvString>(n, v->str); break; }
    else switch(v->t->st) { case pvBoolean: addA<boolean>(b, n, v); break; case pvByte: addA<int8>(b, n, v); break; case pvShort: addA<int16>(b, n, v); break; case pvInt: addA<int32>(b, n, v); break; case pvLong: addA<int64>(b, n, v); break; case pvUByte: addA<uint8>(b, n, v); break; case pvUShort: addA<uint16>(b, n, v); break; case pvUInt: addA<uint32>(b, n, v); break; case pvULong: addA<uint64>(b, n, v); break; case pvFloat: addA<float>(b, n, v); break; case pvDouble: addA<double>(b, n, v); break; case pvString: { shared_vector<string> a(v->strs.size()); std::copy(v->strs.begin(), v->strs.end(), a.begin()); shared_vector<const string> f(freeze(a)); b.add(n, static_shared_vector_cast<const void>(f)); } } }
bool badName(const N& n) { for(auto& p : n.kids) { const string& s = p.first; if(s.empty() || isdigit((unsigned char)s[0])) return true; for(char ch : s) if(!isalnum((unsigned char)ch) && ch != '_') return true; if(badName(p.second)) return true; } return false; }
string nameFor(Ctx& c) { static const char* n[] = {"a", "b", "value", "z", "A", "_x", "alarm", "c1"}; if(c.chance(1, 60)) { static const char* bad[] = {"", "1x", "a.b", "x-y", " "}; return bad[c.u(5)]; } return n[c.u(8)]; }
void verify(Ctx& c, const ValueBuilder& b, const N& root) { if(badName(root)) { MUST_THROW(b.buildPVStructure(), "bad_name", "member with an illegal name built"); c.label("bad name"); return; } PVStructurePtr p = b.buildPVStructure(); VP want = value(root); CHECK(show(describe(p->getStructure())) == show(want->t), "type", "built " + show(describe(p->getStructure())) + " expected " + show(want->t)); string d = diff(load(*p), want); CHECK(d.empty(), "value", d); }
PBT_TEST(builder, 30000, 1000000) {
    TypeOpts so; so.depth = 2; so.nodes = 6; so.unions = so.variants = so.arrays = so.compoundArrays = so.bstring = false; ValOpts vo; vo.maxLen = 4; N root; std::unique_ptr<ValueBuilder> own; 
    if(c.chance(1, 3)) { VP v = genValue(c, genStruct(c, so), vo); c.desc << "clone " << show(v) << "; "; fill(root, v); own.reset(new ValueBuilder(*makeStruct(v))); } else if(c.coin()) own.reset(new ValueBuilder); else { root.id = c.coin() ? "my_t" : genStr(c, 5, false); own.reset(new ValueBuilder(root.id)); c.desc << "id " << pbt::quote(root.id) << "; "; }
    vector<ValueBuilder*> b(1, own.get()); vector<N*> m(1, &root); int n = 1 + c.u(14); c.nontrivial(n > 3); std::map<N*, ValueBuilder*> seen;
    for(int i = 0; i < n; i++) { ValueBuilder& cb = *b.back(); N& cm = *m.back(); string nm = nameFor(c); auto it = cm.kids.find(nm); bool isS = it != cm.kids.end() && it->second.st; ValueBuilder* r = 0;
        switch(c.weighted({6, 4, 4, 2, 3, 2})) {
        case 0: case 1: { TypeOpts o; TP t = c.chance(2, 3) ? mkScalar(genScalarType(c)) : mkSArray(genScalarType(c)); VP v = genValue(c, t, vo); c.desc << "add " << nm << "=" << show(v) << "; "; if(isS) { MUST_THROW(add(cb, nm, v), "replaced_struct", "structure replaced"); break; } add(cb, nm, v); N& k = cm.kids[nm]; k = N(); k.st = false; k.leaf = v; break; }
        case 2: { string id = c.coin() ? "" : "id_" + std::to_string(c.u(3)); c.desc << "nest " << nm << " " << id << "; "; if(it != cm.kids.end() && !isS) { MUST_THROW(cb.addNested(nm, structure, id), "replaced_leaf", "leaf replaced by a structure"); break; } r = id.empty() && c.coin() ? &cb.addNested(nm) : &cb.addNested(nm, structure, id); N& k = cm.kids[nm]; k.id = id; if(seen.count(&k)) CHECK(seen[&k] == r, "nested_again", "another builder for the same member"); seen[&k] = r; b.push_back(r); m.push_back(&k); break; }
        case 3: c.desc << "end; "; if(b.size() == 1) { MUST_THROW(cb.endNested(), "end_top", "endNested() at the top"); break; } r = &cb.endNested(); b.pop_back(); m.pop_back(); CHECK(r == b.back(), "end_wrong", "endNested() gives another builder"); break;
        case 4: { so.arrays = c.chance(1, 8); VP v = genValue(c, genStruct(c, so), vo); c.desc << "struct " << nm << "=" << show(v) << "; "; if(it != cm.kids.end() && !isS) { MUST_THROW(cb.add(nm, *makeStruct(v)), "replaced_leaf", "leaf replaced by a structure"); break; } N& k = cm.kids[nm]; if(!cloneable(v->t) || clash(k, v)) { c.label("not cloneable"); MUST_THROW(cb.add(nm, *makeStruct(v)), "cloned_array", "added " + show(v)); if(!cloneable(v->t)) MUST_THROW(ValueBuilder(*makeStruct(v)), "cloned_array", "cloned " + show(v)); try { own->buildPVStructure(); } catch(std::exception&) {} return; } cb.add(nm, *makeStruct(v)); fill(k, v); break; }
        default: c.desc << "build; "; if(b.size() > 1) MUST_THROW(cb.buildPVStructure(), "built_nested", "nested builder built"); verify(c, *own, root); MUST_THROW(cb.addNested("q", c.coin() ? scalar : unionArray), "nested_type", "addNested() of another type"); } }
    verify(c, *own, root); verify(c, *own, root);
}
}
