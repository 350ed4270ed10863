// P30: the test helpers give one verdict each, the right one, and say what was compared
#include "gen_pvd.hpp"
#include <pv/pvUnitTest.h>
#include <cstdarg>
#include <cmath>
using namespace gp; using namespace epics::pvData; using std::string; using std::vector;
namespace {
struct Said { int verdict; string text; }; // 1: ok, 0: not ok, -1: remark, -2: abort
vector<Said> said; struct Aborted {};
void say(int v, const char* f, va_list a) { va_list b; va_copy(b, a); int n = vsnprintf(0, 0, f, b); va_end(b); string s(n + 1, 0); vsnprintf(&s[0], n + 1, f, a); s.resize(n); Said x = {v, s}; said.push_back(x); }
#define SAY(v) va_list a; va_start(a, f); say(v, f, a); va_end(a)
}
// these stand in for those of EPICS Base
extern "C" { int testOk(int pass, const char* f, ...) { SAY(pass ? 1 : 0); return pass; } void testPass(const char* f, ...) { SAY(1); } void testFail(const char* f, ...) { SAY(0); } int testDiag(const char* f, ...) { SAY(-1); return 0; }
__attribute__((noreturn)) void testAbort(const char* f, ...) { SAY(-2); throw Aborted(); } }
namespace {
string join(const vector<Said>& s) { std::ostringstream o; for(auto& x : s) o << x.verdict << ":" << pbt::quote(x.text) << " "; return o.str(); }
// text told by stream: the first line with the verdict, others as remarks
vector<Said> expect(int verdict, const string& t) { vector<Said> r; if(t.find('\n') == string::npos) { Said x = {verdict, t}; r.push_back(x); return r; } std::istringstream in(t); string l; while(std::getline(in, l)) { Said x = {r.empty() ? verdict : -1, l}; r.push_back(x); } return r; }
void heard(int verdict, const string& t, const char* key) { vector<Said> w = expect(verdict, t); string a = join(said), b = join(w); said.clear(); CHECK_EQ(a, b, key, ""); }
string word(Ctx& c) { string s = genStr(c, 20, false, true); for(auto& ch : s) if(!ch) ch = '0'; if(c.chance(1, 4)) s.insert(c.u(s.size() + 1), 1 + c.u(2), '\n'); return s; }
template<class X> string str(const X& x) { std::ostringstream o; o << x; return o.str(); }
template<class X> void compare(Ctx& c, X l, X r, const string& more) {
    bool same = l == r; if(c.coin()) { if(more.empty()) testEqual(l, r); else testEqual(l, r) << more; heard(same, "l (" + str(l) + ") == r (" + str(r) + ")" + more, "equal"); } else { if(more.empty()) testNotEqual(l, r); else testNotEqual(l, r) << more; heard(!same, "l (" + str(l) + ") != r (" + str(r) + ")" + more, "not-equal"); }
}
PBT_TEST(plain, 40000, 400000) {
    string more = c.coin() ? string() : word(c); c.desc << "more " << pbt::quote(more) << " "; said.clear(); c.nontrivial(true);
    switch(c.u(7)) {
    case 6: { bool y = c.coin(); string t = word(c); while(c.chance(1, 3)) t = "\n" + t; { ::detail::testPassx x(y); x << t << more; } heard(y, t + more, "direct"); break; }
    case 0: { int a = c.range(-3, 3), b = c.range(-3, 3); c.desc << a << " " << b; compare(c, a, b, more); break; }
    case 1: { string a = word(c), b = c.coin() ? a : word(c); c.desc << pbt::quote(a) << " " << pbt::quote(b); compare(c, a, b, more); break; }
    case 2: { double v[] = {0., -0., 1.5, std::nan(""), 1e300, HUGE_VAL}; double a = v[c.u(6)], b = v[c.u(6)]; c.desc << a << " " << b; compare(c, a, b, more); break; }
    case 3: { bool y = c.coin(); c.desc << y; testTrue(y) << more; heard(y, "y" + more, "true"); int n = c.u(3) << c.u(12); testTrue(n) << more << n; heard(n != 0, "n" + more + str(n), "true"); break; }
    case 4: { testShow() << more; heard(-1, more, "show"); testShow() << "a" << 1 << more; heard(-1, "a1" + more, "show"); break; }
    default: { // a shared vector
        shared_vector<int> m(c.u(4)); for(auto& x : m) x = c.u(2); shared_vector<const int> a(freeze(m)), b(a); if(c.coin()) { shared_vector<int> k(c.u(4)); for(auto& x : k) x = c.u(2); b = freeze(k); } c.desc << a << b; compare(c, a, b, more); }
    }
}
// exceptions: a pass only for those of the type, others go on
PBT_TEST(throws, 10000, 100000) {
    int what = c.u(4); string m = word(c); said.clear(); c.desc << what << " " << pbt::quote(m); c.nontrivial(true); bool went = false; int ran = 0;
    auto doit = [&] { ran++; switch(what) { case 1: throw std::invalid_argument(m); case 2: throw std::runtime_error(m); case 3: THROW_EXCEPTION2(std::domain_error, m); default: break; } };
    int catches = c.u(2);
    try { if(catches) { testThrows(std::logic_error, doit()); } else { testThrows(std::runtime_error, doit()); } } catch(std::exception& e) { went = true; CHECK_EQ(string(e.what()), m, "passed-on", ""); }
    bool match = catches ? what == 1 || what == 3 : what == 2; CHECK_EQ(ran, 1, "runs", "");
    if(!what) { CHECK(said.size() == 1 && said[0].verdict == 0 && said[0].text.find("doit()") != string::npos, "throws", "no exception: " << join(said)); }
    else if(match) { CHECK(said.size() == 1 && said[0].verdict == 1 && said[0].text.find(m) != string::npos, "throws", join(said)); }
    else CHECK(said.empty(), "throws", join(said));
    CHECK_EQ(went, what && !match, "passed-on", "");
}
struct Fixture { static int made, gone, runs, mode; bool fresh; Fixture() : fresh(true) { made++; if(mode == 1) throw std::runtime_error("setup"); } ~Fixture() { gone++; } void method() { if(fresh) runs++; fresh = false; testTrue(mode != 3); if(mode == 2) THROW_EXCEPTION2(std::logic_error, "inside"); } };
int Fixture::made, Fixture::gone, Fixture::runs, Fixture::mode;
PBT_TEST(methods, 3000, 30000) {
    int n = 1 + c.u(5); Fixture::made = Fixture::gone = Fixture::runs = 0; c.nontrivial(true);
    for(int i = 0; i < n; i++) { Fixture::mode = c.u(4); c.desc << Fixture::mode << " "; said.clear(); bool ab = false; int before = Fixture::runs; int m0 = Fixture::made, g0 = Fixture::gone;
        try { TEST_METHOD(Fixture, method); } catch(Aborted&) { ab = true; }
        CHECK_EQ(ab, Fixture::mode == 1 || Fixture::mode == 2, "method-abort", join(said)); CHECK_EQ(Fixture::runs - before, Fixture::mode == 1 ? 0 : 1, "method-runs", ""); CHECK_EQ(Fixture::made - m0, 1, "method-made", ""); CHECK_EQ(Fixture::gone - g0, Fixture::mode == 1 ? 0 : 1, "method-gone", "");
        CHECK(!said.empty() && said[0].verdict == -1 && said[0].text.find("Fixture::method") != string::npos, "method-name", join(said));
        int verdicts = 0; for(auto& s : said) if(s.verdict >= 0) { verdicts++; CHECK_EQ(s.verdict, Fixture::mode != 3 ? 1 : 0, "method-verdict", join(said)); } CHECK_EQ(verdicts, Fixture::mode == 1 ? 0 : 1, "method-verdict", join(said));
        if(ab) CHECK(said.back().verdict == -2 && said.back().text.find(Fixture::mode == 1 ? "setup" : "inside") != string::npos, "method-abort", join(said)); }
}
// ---- fields of structures
struct Leaf { string path; VP v; };
void leaves(const VP& v, const string& at, vector<Leaf>& out) { for(size_t i = 0; i < v->kids.size(); i++) { Leaf l = { at + v->t->names[i], v->kids[i] }; out.push_back(l); if(v->kids[i]->t->k == KStruct) leaves(v->kids[i], l.path + ".", out); } }
template<class PVD> typename PVD::value_type fromBits(uint64_t n) { typename PVD::value_type x; memcpy(&x, &n, sizeof x); return x; }
template<> boolean fromBits<PVBoolean>(uint64_t n) { return n & 1; }
template<class A> typename A::const_svector vec(const VP& v) { typename A::svector r(v->nums.size()); for(size_t i = 0; i < r.size(); i++) { if(sizeof(r[0]) > 8) continue; uint64_t n = v->nums[i]; memcpy(&r[i], &n, sizeof(r[0])); } return freeze(r); }
template<> PVStringArray::const_svector vec<PVStringArray>(const VP& v) { PVStringArray::svector r(v->strs.size()); for(size_t i = 0; i < r.size(); i++) r[i] = v->strs[i]; return freeze(r); }
template<class PVD> typename PVD::value_type val(const VP& v) { return fromBits<PVD>(v->num); }
template<> string val<PVString>(const VP& v) { return v->str; }
string escape(const string& s) { return string(s.c_str()); } // the text of a verdict ends at a NUL
struct Judge {
    Ctx& c; PVStructure::const_shared_pointer s; VP root; vector<Leaf> l;
    void verdict(bool want, const char* key, const string& about) { int n = 0; for(auto& x : said) if(x.verdict >= 0) { n++; CHECK_EQ(x.verdict == 1, want, key, about << ": " << join(said)); } CHECK_EQ(n, 1, key, "verdicts for " << about << ": " << join(said)); said.clear(); }
    template<class PVD> void scalar(ScalarType st) {
        const Leaf* x = pick(); string path = x ? x->path : "no.such"; VP v; if(x && x->v->t->k == KUnion && x->v->sel >= 0) v = x->v->kids[0]; else if(x && x->v->t->k == KVariant && !x->v->kids.empty()) v = x->v->kids[0]; else if(x) v = x->v;
        bool has = v && ((v->t->k == KScalar && v->t->st == st) || (v->t->k == KBString && st == pvString));
        typename PVD::value_type want = val<PVD>(has && c.chance(2, 3) ? v : genValue(c, mkScalar(st)));
        bool eq = has && val<PVD>(v) == want; c.desc << path << " as " << ScalarTypeFunc::name(st) << (eq ? " equal; " : has ? " different; " : " none; ");
        testFieldEqual<PVD>(s, path.c_str(), want); if(has && !said.empty() && said[0].text.size() && str(want).find('\n') == string::npos && str(val<PVD>(v)).find('\n') == string::npos) CHECK_EQ(pbt::quote(said[0].text), pbt::quote(escape(path + " (" + str(val<PVD>(v)) + ") == " + str(want))), "field-text", "");
        if(!has) CHECK(!said.empty() && said[0].text.find("does not exist") != string::npos, "field-text", join(said));
        verdict(eq, "field", path); if(has) c.label(eq ? "equal" : "different"); else c.label("none"); done = done || has;
    }
    template<class PVD> void array(ScalarType st) {
        const Leaf* x = pick(); string path = x ? x->path : "no.such"; VP v = x ? x->v : VP(); bool has = v && v->t->k == KSArray && v->t->st == st;
        VP w; if(has && c.coin()) w = v; else if(has) { w = clone(v); ValOpts o; mutate(c, w, o); } else w = genValue(c, mkSArray(st));
        typename PVD::const_svector want = vec<PVD>(w); bool eq = has && vec<PVD>(v) == want; c.desc << path << " as " << ScalarTypeFunc::name(st) << (eq ? "[] equal; " : has ? "[] different; " : "[] none; ");
        testFieldEqual<PVD>(s, path.c_str(), want); if(!has) CHECK(!said.empty() && said[0].text.find("does not exist") != string::npos, "field-text", join(said)); verdict(eq, "array", path); if(has) c.label(eq ? "array equal" : "array different"); done = done || has;
    }
    bool done = false; ScalarType hint = pvInt; bool arr = false;
    const Leaf* chosen = 0; const Leaf* pick() { return chosen; }
    void choose() { chosen = l.empty() || c.chance(1, 10) ? 0 : &l[c.u(l.size())]; hint = genScalarType(c); arr = c.coin(); if(chosen && c.chance(3, 4)) { VP v = chosen->v; if((v->t->k == KUnion || v->t->k == KVariant) && !v->kids.empty() && v->kids[0]) v = v->kids[0]; if(v->t->k == KBString) { hint = pvString; arr = false; } else if(v->t->k == KScalar || v->t->k == KSArray) { hint = v->t->st; arr = v->t->k == KSArray; } } }
};
PBT_TEST(fields, 30000, 300000) {
    TypeOpts to; TP t = genStruct(c, to); ValOpts vo; vo.big = false; VP v = genValue(c, t, vo); PVStructurePtr s = makeStruct(v); Judge j = {c, s, v, {}}; leaves(v, "", j.l); c.desc << show(v) << "; "; int n = 1 + c.u(6); said.clear();
    for(int i = 0; i < n; i++) { j.choose();
        switch(j.hint) {
#define OP(ST, X) case ST: if(j.arr) j.array<X##Array>(ST); else j.scalar<X>(ST); break;
        OP(pvBoolean, PVBoolean) OP(pvByte, PVByte) OP(pvShort, PVShort) OP(pvInt, PVInt) OP(pvLong, PVLong) OP(pvUByte, PVUByte) OP(pvUShort, PVUShort) OP(pvUInt, PVUInt) OP(pvULong, PVULong) OP(pvFloat, PVFloat) OP(pvDouble, PVDouble) OP(pvString, PVString)
        } }
    if(c.chance(1, 8)) { testFieldEqual<PVInt>(PVStructure::const_shared_pointer(), "a", 1); j.verdict(false, "null", "null structure"); testFieldEqual<PVIntArray>(PVStructure::const_shared_pointer(), "a", PVIntArray::const_svector()); j.verdict(false, "null", "null structure"); }
    string d = diff(load(*s), v); CHECK(d.empty(), "changed", d); c.nontrivial(j.done);
}
}
