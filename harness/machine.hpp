// Random programs over the public interfaces: types, values, builders, data, helpers (P24, P27, P29)
#pragma once
#include "gen_pvd.hpp"
#include <thread>
#include <functional>
#include <atomic>
#include <sanitizer/allocator_interface.h>
#include <pv/createRequest.h>
#include <pv/json.h>
#include <pv/reftrack.h>
#include <pv/anyscalar.h>
#include <pv/pvSubArrayCopy.h>
#include <pv/pvAlarm.h>
#include <pv/pvTimeStamp.h>
#include <pv/pvDisplay.h>
#include <pv/pvControl.h>
#include <pv/pvEnumerated.h>
#include <pv/bitSetUtil.h>
#include <pv/debugPtr.h>
namespace {
using namespace gp; using namespace epics::pvData; using std::string; using std::vector;
enum Op { TYPE, VALUE, SUB, DROP, STORE, CLONE, COPY, WIRE, TYPEWIRE, FBUILD, VBUILD, JSON, REQ, UNION, SARRAY, HANDLER, SUBCOPY, BADTYPE, STD, DATA, USE, MISC, NEWSTRUCT, APPEND, IMMUT, ANYS, NOPS };
const char* opName[] = {"type", "value", "sub", "drop", "store", "clone", "copy", "wire", "typewire", "fbuild", "vbuild", "json", "request", "union", "sarray", "handler", "subcopy", "badtype", "std", "data", "use", "misc", "newstruct", "append", "immutable", "any"};
struct Call { int k; string n, id; int st; size_t x; };
struct Step { Op op; int a, b; uint32_t x, y; TP t; VP v; string s; vector<Call> calls; };
struct Helpers { PVAlarm al; PVTimeStamp ts; PVDisplay di; PVControl co; PVEnumerated en; };
struct H { TP t; FieldConstPtr f; PVFieldPtr v; VP expect; int fam = -1; FieldBuilderPtr fb; std::shared_ptr<ValueBuilder> vb; shared_vector<const void> data; std::shared_ptr<Helpers> hp; PVRequestMapper mp; PVStructurePtr rq; AnyScalar any; };
struct Post : public PostHandler { PVFieldPtr nothing; string big = string(50, 'x'); int n = 0; void postPut() override { n++; } };
size_t objects(const VP& v) { if(!v) return 0; size_t n = 1; for(auto& k : v->kids) n += objects(k); return n; }
bool cloneable(const TP& t) { if(t->k == KScalar) return true; if(t->k != KStruct) return false; for(auto& k : t->kids) if(!cloneable(k)) return false; return true; }
const size_t NS = 6;
struct Machine {
    H h[NS]; int nextFam = 0; bool faults; size_t threw = 0, did = 0; string bad, badKey; std::ostream* log = 0; std::function<void()> after;
    bool ownElements = false; // elements of arrays are shared with other threads: take copies
    explicit Machine(bool f) : faults(f) {}
    void unknown(int fam) { for(auto& x : h) if(x.fam == fam) x.expect.reset(); }
    void join(int a, int b) { for(auto& x : h) if(x.fam == b) x.fam = a; }
    void fail(const string& k, const string& m) { if(badKey.empty()) { badKey = k; bad = m; } }
    void op(const Step& s);
    void run(const vector<Step>& prog) {
        for(auto& s : prog) { try { op(s); did++; if(log) *log << "ok "; } catch(pbt::AssertHit&) { throw; } catch(std::exception& e) { threw++; if(log) { string w = e.what(); *log << "(" << w.substr(0, w.find('\n')) << ") "; } if(h[s.a].fam >= 0) unknown(h[s.a].fam); if(h[s.b].fam >= 0) unknown(h[s.b].fam); } if(after) after(); }
        if(log) for(size_t i = 0; i < NS; i++) { H& x = h[i]; *log << "\n" << i << ":"; if(x.f) *log << " type " << show(describe(x.f)); if(x.v) *log << " value " << show(load(*x.v)) << " in " << x.v->getFullName() << " at " << x.v->getFieldOffset(); if(x.rq) *log << " request " << *x.rq; }
        for(size_t i = 0; i < NS; i++) { H& x = h[i]; if(!x.v) continue; string n = x.v->getFullName(); PVStructure* p = x.v->getParent(); if(p) { if(p->getPVFields().size() > 1000) n += "!"; } x.v->getFieldOffset(); VP now = load(*x.v); if(x.expect) { string d = diff(now, x.expect); if(!d.empty()) fail("value", "slot " + std::to_string(i) + ": " + d); } }
        // let go one by one, looking at what is left
        for(size_t i = 0; i < NS; i++) { h[i] = H(); for(size_t j = i + 1; j < NS; j++) if(h[j].v) { PVStructure* p = h[j].v->getParent(); if(p) (void)p->getStructure()->getNumberFields(); (void)h[j].v->getFullName(); if(h[j].expect) { VP now = load(*h[j].v); string d = diff(now, h[j].expect); if(!d.empty()) fail("value_after_drop", d); } } }
    }
};
void Machine::op(const Step& s) {
    H& A = h[s.a]; H& B = h[s.b]; FieldCreatePtr fc = getFieldCreate(); PVDataCreatePtr dc = getPVDataCreate();
    switch(s.op) {
    case TYPE: { FieldConstPtr f = build(s.t); A = H(); A.f = f; A.t = s.t; break; }
    case VALUE: { A = H(); size_t before = epics::readRefCounter("PVField"); PVFieldPtr v = make(s.v); size_t n = epics::readRefCounter("PVField") - before, want = objects(s.v); if(n != want && !faults) fail("counter", "creating " + show(s.v) + " counted " + std::to_string(n) + " fields, expected " + std::to_string(want)); A.v = v; A.t = s.v->t; A.expect = s.v; A.fam = nextFam++; break; }
    case SUB: { if(!B.v || B.t->k != KStruct) return; PVStructurePtr p = std::tr1::static_pointer_cast<PVStructure>(B.v); size_t n = p->getNumberFields(); if(n < 2) return; int fam = B.fam; PVFieldPtr f = p->getSubFieldT(p->getFieldOffset() + 1 + s.x % (n - 1)); TP t = describe(f->getField()); VP e = B.expect ? load(*f) : VP(); H x; x.v = f; x.t = t; x.expect = e; x.fam = fam; A = x; break; }
    case DROP: A = H(); break;
    case STORE: if(!A.v || !eq(A.t, s.v->t)) return; store(A.v, s.v); unknown(A.fam); A.expect = s.v; break;
    case CLONE: { if(!B.v) return; PVFieldPtr v; if(B.t->k == KStruct && s.x % 2) v = dc->createPVStructure(std::tr1::static_pointer_cast<PVStructure>(B.v)); else v = dc->createPVField(B.v); H x; x.v = v; x.t = B.t; x.expect = B.expect; x.fam = B.fam; A = x; break; }
    case COPY: { if(!A.v || !B.v || A.v->getField() != B.v->getField()) return; VP e = B.expect; bool same = s.a == s.b; unknown(A.fam); switch(s.x % 3) { case 0: A.v->copy(*B.v); break; case 1: A.v->copyUnchecked(*B.v); break; default: if(A.t->k == KStruct) { BitSet m; for(int i = 0; i < 30; i++) if(s.y >> i & 1) m.set(i); dynamic_cast<PVStructure&>(*A.v).copyUnchecked(dynamic_cast<PVStructure&>(*B.v), m, s.y & 1); e.reset(); } else A.v->copy(*B.v); } if(!same) join(A.fam, B.fam); A.expect = e; break; }
    case WIRE: { if(!B.v) return; bool big = s.y & 1; Out out(16 + s.x % 60, big); B.v->serialize(&out.buf, &out); vector<uint8_t> bytes = out.finish(); VP e = B.expect; bool cut = s.x % 3 == 0; if(cut) bytes.resize(bytes.size() - bytes.size() / (1 + s.y % 5)); bool flip = s.x % 7 == 1; if(flip && bytes.size()) bytes[s.y % bytes.size()] ^= 1 << (s.x % 8); In in(bytes, 16 + s.y % 50, big); in.hostile = flip || cut; PVFieldPtr v = A.v && A.v->getField() == B.v->getField() && s.x % 2 ? A.v : dc->createPVField(B.v->getField()); if(v == A.v) unknown(A.fam); TP t = B.t; v->deserialize(&in.buf, &in); H x; x.v = v; x.t = t; if(!flip && !cut) x.expect = e; x.fam = v == A.v ? A.fam : nextFam++; A = x; break; }
    case TYPEWIRE: { FieldConstPtr f = B.v ? FieldConstPtr(B.v->getField()) : B.f; if(!f) return; Out out(64, true); f->serialize(&out.buf, &out); vector<uint8_t> bytes = out.finish(); if(s.x % 3 == 0) bytes.resize(s.y % (bytes.size() + 1)); else if(s.x % 3 == 1) bytes[s.y % bytes.size()] ^= 1 << (s.x % 8); In in(bytes, 32, true); in.hostile = true; FieldConstPtr g = fc->deserialize(&in.buf, &in); A = H(); A.f = g; if(g) A.t = describe(g); break; }
    case FBUILD: { FieldBuilderPtr b = A.fb ? A.fb : s.x % 3 == 0 && B.f && B.f->getType() == structure ? fc->createFieldBuilder(std::tr1::static_pointer_cast<const Structure>(B.f)) : fc->createFieldBuilder(); A = H(); FieldBuilderPtr root = b; for(auto& c : s.calls) try { switch(c.k) { case 0: b->add(c.n, (ScalarType)c.st); break; case 1: b->addArray(c.n, (ScalarType)c.st); break; case 2: b->addFixedArray(c.n, (ScalarType)c.st, c.x); break; case 3: b->addBoundedString(c.n, c.x); break; case 4: b = b->addNestedStructure(c.n); break; case 5: b = b->addNestedUnion(c.n); break; case 6: b = b->addNestedStructureArray(c.n); break; case 7: b = b->addNestedUnionArray(c.n); break; case 8: b->setId(c.id); break; case 9: if(B.f) b->add(c.n, B.f); break; case 10: if(B.f) b->addArray(c.n, B.f); break; case 11: b = b->endNested(); break; case 12: b->createStructure(); break; case 13: b->createUnion(); break; } } catch(pbt::AssertHit&) { throw; } catch(std::bad_alloc&) { throw; } catch(std::exception&) { threw++; } A.fb = s.x % 2 ? b : root; break; }
    case VBUILD: { std::shared_ptr<ValueBuilder> own; if(B.v && B.t->k == KStruct && s.x % 2) own.reset(new ValueBuilder(static_cast<const PVStructure&>(*B.v))); else if(A.vb) own = A.vb; else own.reset(new ValueBuilder); A = H(); ValueBuilder* b = own.get(); A.vb = own; for(auto& c : s.calls) try { switch(c.k % 8) { case 0: b->add<pvString>(c.n, c.id); break; case 1: b->add<pvDouble>(c.n, 1.5); break; case 2: { shared_vector<int32> v(c.x, 7); b->add(c.n, static_shared_vector_cast<const void>(freeze(v))); break; } case 3: case 4: b = &b->addNested(c.n, c.k < 8 ? structure : union_, c.id); break; case 5: b = &b->endNested(); break; case 6: b->buildPVStructure(); break; default: { shared_vector<string> v(c.x, c.id); b->add(c.n, static_shared_vector_cast<const void>(freeze(v))); } } } catch(pbt::AssertHit&) { throw; } catch(std::bad_alloc&) { throw; } catch(std::exception&) { threw++; } break; }
    case JSON: { if(!B.v || B.t->k != KStruct) return; std::stringstream str; PVStructure& p = static_cast<PVStructure&>(*B.v); printJSON(str, p); string txt = str.str(); if(s.x % 3 == 0) txt.resize(s.y % (txt.size() + 1)); else if(s.x % 3 == 1) txt[s.y % txt.size()] = "{}[]\":,0x"[s.x % 9]; std::istringstream in(txt); if(s.y % 2) { PVStructurePtr r = parseJSON(in); H x; x.v = r; x.t = describe(r->getField()); x.fam = nextFam++; A = x; } else { PVStructurePtr r = dc->createPVStructure(p.getStructure()); BitSet m; TP t = B.t; parseJSON(in, *r, &m); H x; x.v = r; x.t = t; x.fam = nextFam++; A = x; } break; }
    case REQ: { PVStructurePtr rq = createRequest(s.s); A = H(); A.rq = rq; if(s.x % 2) { CreateRequest::shared_pointer cr(CreateRequest::create()); cr->createRequest(s.s); } if(B.v && B.t->k == KStruct && !B.v->getParent()) { const PVStructure& base = static_cast<PVStructure&>(*B.v); A.mp.compute(base, *rq, s.y % 2 ? PVRequestMapper::Mask : PVRequestMapper::Slice); PVStructurePtr r = A.mp.buildRequested(); BitSet m, all; all.set(0); A.mp.copyBaseToRequested(base, all, *r, m); H x; x.v = r; x.t = describe(r->getField()); x.fam = B.fam; x.mp = A.mp; x.rq = rq; A = x; } break; }
    case UNION: { if(!A.v || (A.t->k != KUnion && A.t->k != KVariant)) return; unknown(A.fam); PVUnion& u = static_cast<PVUnion&>(*A.v); switch(s.x % 5) { case 0: u.select((int32)(s.y % 5) - 1); break; case 1: if(A.t->names.size()) u.select(A.t->names[s.y % A.t->names.size()]); break; case 2: u.select("nothing_like_it"); break; case 3: if(B.v && (B.t->k == KScalar || B.t->k == KSArray)) { u.set((int32)(s.y % 5) - 1, B.v); join(A.fam, B.fam); } break; default: if(u.get()) { H x; x.v = u.get(); x.t = describe(x.v->getField()); x.fam = A.fam; B = x; } } break; }
    case SARRAY: { if(!A.v || (A.t->k != KStructArr && A.t->k != KUnionArr && A.t->k != KVariantArr)) return; unknown(A.fam); if(A.t->k == KStructArr) { PVStructureArray& p = static_cast<PVStructureArray&>(*A.v); switch(s.x % 6) { case 0: p.append(s.y % 4); break; case 1: p.remove(s.y % 3, s.y % 4); break; case 2: p.compress(); break; case 3: p.setLength(s.y % 5); break; case 4: p.reuse(); break; default: { PVStructureArray::const_svector v(p.view()); if(v.size() && v[s.y % v.size()]) { H x; x.v = v[s.y % v.size()]; if(ownElements) x.v = dc->createPVField(x.v); x.t = describe(x.v->getField()); x.fam = A.fam; B = x; } } } } else { PVUnionArray& p = static_cast<PVUnionArray&>(*A.v); switch(s.x % 6) { case 0: p.append(s.y % 4); break; case 1: p.remove(s.y % 3, s.y % 4); break; case 2: p.compress(); break; case 3: p.setLength(s.y % 5); break; case 4: { PVUnionArray::svector v(p.reuse()); v.resize(s.y % 4); p.replace(freeze(v)); break; } default: { PVUnionArray::const_svector v(p.view()); if(v.size() && v[s.y % v.size()]) { H x; x.v = v[s.y % v.size()]; if(ownElements) x.v = dc->createPVField(x.v); x.t = describe(x.v->getField()); x.fam = A.fam; B = x; } } } } break; }
    case HANDLER: if(A.v) { std::tr1::shared_ptr<Post> p(new Post); A.v->setPostHandler(p); A.v->postPut(); } break;
    case SUBCOPY: { PVArray* p = A.v ? dynamic_cast<PVArray*>(A.v.get()) : 0; PVArray* q = B.v ? dynamic_cast<PVArray*>(B.v.get()) : 0; if(!p || !q) return; unknown(A.fam); join(A.fam, B.fam); copy(*q, s.x % 4, 1 + s.x % 2, *p, s.y % 4, 1 + s.y % 2, s.y % 5); break; }
    case BADTYPE: { StringArray n; FieldConstPtrArray f; FieldConstPtr one = B.f ? B.f : FieldConstPtr(fc->createScalar(pvInt)); n.push_back("a"); f.push_back(one); switch(s.x % 9) { case 0: n.push_back("a"); f.push_back(one); fc->createStructure(n, f); break; case 1: n.push_back("b"); f.push_back(FieldConstPtr()); fc->createStructure(n, f); break; case 2: n.push_back("b"); fc->createStructure("id", n, f); break; case 3: n[0] = "1"; fc->createUnion(n, f); break; case 4: fc->createBoundedScalarArray(pvInt, 0); break; case 5: fc->createStructureArray(StructureConstPtr()); break; case 6: n.push_back("c"); f.push_back(one); { StructureConstPtr x = fc->createStructure(n, f); A = H(); A.f = x; A.t = describe(x); } break; case 7: fc->createFixedScalarArray(pvString, 0); break; default: fc->createUnion("", n, FieldConstPtrArray()); } break; }
    case STD: { static const char* props[] = {"alarm,timeStamp", "alarm,timeStamp,display,control", "valueAlarm", "display", "", "alarm,nothing"}; PVStructurePtr p; switch(s.x % 3) { case 0: p = getStandardPVField()->scalar((ScalarType)(s.y % 12), props[s.x / 3 % 6]); break; case 1: p = getStandardPVField()->scalarArray((ScalarType)(s.y % 12), props[s.x / 3 % 6]); break; default: { StringArray ch(s.y % 4, "choice"); p = getStandardPVField()->enumerated(ch, props[s.x / 3 % 2]); } } std::shared_ptr<Helpers> hp(new Helpers); if(p->getSubField("alarm")) hp->al.attach(p->getSubField("alarm")); if(p->getSubField("timeStamp")) hp->ts.attach(p->getSubField("timeStamp")); if(p->getSubField("display")) hp->di.attach(p->getSubField("display")); if(p->getSubField("control")) hp->co.attach(p->getSubField("control")); if(s.x % 3 == 2) { hp->en.attach(p->getSubField("value")); hp->en.getChoice(); hp->en.setIndex(s.y % 5); } if(hp->al.isAttached()) { Alarm a; hp->al.get(a); a.setMessage("x"); hp->al.set(a); } H x; x.hp = hp; if(s.y % 2) { x.v = p; x.t = describe(p->getField()); x.fam = nextFam++; } A = x; break; }
    case DATA: { if(!A.v || A.t->k != KSArray) return; PVScalarArray& p = static_cast<PVScalarArray&>(*A.v); if(B.data.size() && s.x % 2) { unknown(A.fam); p.putFrom<void>(B.data); break; } shared_vector<const void> d; p.getAs<const void>(d); if(s.x % 4 == 2) d.slice(s.y % 3, 2); if(s.x % 4 == 0) { shared_vector<const string> t(shared_vector_convert<const string>(d)); d = static_shared_vector_cast<const void>(t); } B.data = d; break; }
    case USE: { std::ostringstream o; if(A.v) { o << *A.v; if(A.t->k == KStruct) o << static_cast<PVStructure&>(*A.v).stream(); if(B.v) o << (*A.v == *B.v); } if(A.f) { o << *A.f; if(B.f) o << (*A.f == *B.f); } if(A.data.size() && A.data.original_type() != pvString) { const char* p = (const char*)A.data.data(); o << p[0] << p[A.data.size() - 1]; } if(A.hp && A.hp->al.isAttached()) { Alarm a; A.hp->al.get(a); A.hp->al.set(a); } if(A.hp && A.hp->en.isAttached()) { o << A.hp->en.getIndex(); A.hp->en.getChoice(); } if(A.v && A.t->k == KStruct) { PVStructure& p = static_cast<PVStructure&>(*A.v); for(auto& n : A.t->names) { (void)p.getSubField(n + ".x"); p.getSubFieldT<PVScalar>(n); } } break; }
    case MISC: { switch(s.y % 6) { case 0: if((*AlarmSeverityFunc::getSeverityNames())[s.x % 5].size() < 4) fail("names", "severity"); break; case 1: if((*AlarmStatusFunc::getStatusNames())[s.x % 8].size() < 2) fail("names", "status"); break; case 2: if(A.v && (A.t->k == KScalar || A.t->k == KSArray)) { std::ostringstream o; string txt; if(A.t->k == KScalar) txt = getConvert()->toString(std::tr1::static_pointer_cast<PVScalar>(A.v)); if(log) *log << txt << " "; } break; case 3: { TimeStamp ts; ts.getCurrent(); break; } case 4: { StructureConstPtr sf = s.x % 2 ? getStandardField()->alarm() : getStandardField()->timeStamp(); if(log) *log << sf->getID() << " "; break; } default: if(log) { *log << ScalarTypeFunc::name((ScalarType)(s.x % 12)) << ScalarTypeFunc::getScalarType("uint") << " "; } } BitSet x, y; x.set(s.x % 500); y.set(s.y % 300); x |= y; x &= y; BitSet z(x); z.swap(y); ByteBuffer b(1 + s.x % 100); if(s.x % 5 == 0) { char raw[8]; ByteBuffer w(raw, sizeof raw); } if(A.v && A.t->k == KStruct) { BitSetPtr xp(new BitSet(x)); BitSetUtil::compress(xp, std::tr1::static_pointer_cast<PVStructure>(A.v)); } break; }
    case NEWSTRUCT: { StringArray n; PVFieldPtrArray f; int fam = nextFam++; std::set<PVField*> used; for(size_t i = 0; i < NS; i++) if((s.x >> i & 1) && h[i].v && !h[i].v->getParent() && h[i].t->k != KStruct && h[i].v->getFieldOffset() == 0 && used.insert(h[i].v.get()).second) { n.push_back("m" + std::to_string(s.y % 7 == 0 ? 0 : i)); f.push_back(h[i].v); } PVStructurePtr p = dc->createPVStructure(n, f); for(auto& x : h) if(x.v && used.count(x.v.get())) unknown(x.fam), join(fam, x.fam); H x; x.v = p; x.t = describe(p->getField()); x.fam = fam; A = x; break; }
    case APPEND: { StructureConstPtr st = B.f && B.f->getType() == structure ? std::tr1::static_pointer_cast<const Structure>(B.f) : B.v && B.t->k == KStruct ? static_cast<PVStructure&>(*B.v).getStructure() : StructureConstPtr(); if(!st) return; FieldConstPtr more = A.f ? A.f : FieldConstPtr(fc->createScalar(pvDouble)); StructureConstPtr r; if(s.x % 2) r = fc->appendField(st, s.s, more); else r = fc->appendFields(st, StringArray(2, s.s), FieldConstPtrArray(2, more)); A = H(); A.f = r; A.t = describe(r); break; }
    case IMMUT: if(A.v) { A.v->setImmutable(); } break;
    case ANYS: { PVScalar* p = B.v ? dynamic_cast<PVScalar*>(B.v.get()) : 0; AnyScalar x(s.s); if(p) p->getAs(x); AnyScalar y(x), z; z = y; y.swap(z); z = AnyScalar((double)s.x); A.any.swap(y); PVScalar* q = A.v ? dynamic_cast<PVScalar*>(A.v.get()) : 0; if(q) { unknown(A.fam); q->putFrom(A.any); } A.any.as<string>(); A.any.as<int32>(); break; }
    case NOPS: break; }
}
vector<Call> genCalls(Ctx& c) { vector<Call> r; static const char* n[] = {"a", "b", "c", "value", "x y", "", "a"}; for(int i = 1 + c.u(7); i > 0; i--) { Call k; k.k = c.u(14); k.n = n[c.u(7)]; k.id = c.coin() ? "" : "an_identifier_which_is_long"; k.st = c.u(12); k.x = c.u(4); r.push_back(k); } return r; }
vector<Step> program(Ctx& c) {
    TypeOpts to; to.depth = 3; to.nodes = 8; to.wide = false; ValOpts vo; vo.big = false; vo.maxLen = 4; static const char* rq[] = {"field(a)", "field(value,a.b)", "a,b", "field(a[x=y])getField(b)", "record[x=y]field(c{d,e})", "field(a", "a{b{c}}", "field()", "alarm,timeStamp,value", "x=y", "a]b", "putField(a)field(b)"};
    vector<Step> p; TP gt[NS]; bool val[NS] = {}; int n = 2 + c.u(14); vector<TP> known;
    for(int i = 0; i < n; i++) { Step s; s.op = (Op)c.weighted({ 3, 8, 4, 4, 3, 3, 3, 3, 2, 3, 3, 2, 3, 3, 3, 1, 2, 2, 2, 3, 3, 1, 3, 2, 1, 2 }); s.a = c.u(NS); s.b = c.u(NS); s.x = c.u(10000); s.y = c.u(1 << 30);
        auto newType = [&]() { if(!known.empty() && c.coin()) return c.pick(known); TP t = c.chance(2, 3) ? genStruct(c, to) : genType(c, to); known.push_back(t); return t; };
        switch(s.op) { case TYPE: s.t = gt[s.a] = newType(); val[s.a] = false; c.desc << "type " << s.a << " " << show(s.t) << "; "; break; case VALUE: s.v = genValue(c, newType(), vo); gt[s.a] = s.v->t; val[s.a] = true; c.desc << "value " << s.a << " " << show(s.v->t) << "=" << show(s.v) << "; "; break; case STORE: if(!val[s.a]) continue; s.v = genValue(c, gt[s.a], vo); c.desc << "store " << s.a << " " << show(s.v) << "; "; break; case CLONE: gt[s.a] = gt[s.b]; val[s.a] = val[s.b]; c.desc << "clone " << s.a << " from " << s.b << "; "; break;
        case UNION: case SARRAY: case DATA: case SUBCOPY: case ANYS: s.s = c.coin() ? "12" : "a longer text which is no number"; c.desc << opName[s.op] << " " << s.a << " " << s.b << " " << s.x << " " << s.y << "; "; break;
        case REQ: s.s = rq[c.u(12)]; if(c.chance(1, 3) && !known.empty()) { TP t = c.pick(known); if(t->k == KStruct && t->names.size()) s.s = "field(" + c.pick(t->names) + ")"; } c.desc << "request " << s.s << " for " << s.b << "; "; break;
        case FBUILD: case VBUILD: s.calls = genCalls(c); c.desc << opName[s.op] << " " << s.a << " " << s.b << ":"; for(auto& k : s.calls) c.desc << " " << k.k << k.n; c.desc << "; "; break; case APPEND: s.s = c.coin() ? "more" : "a"; 
        default: c.desc << opName[s.op] << " " << s.a << " " << s.b << " " << s.x << " " << s.y << "; "; }
        p.push_back(s); }
    return p;
}
}
