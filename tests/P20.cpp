// P20: property helpers and time stamps
#include "gen_pvd.hpp"
#include <pv/timeStamp.h>
#include <pv/alarm.h>
#include <pv/control.h>
#include <pv/display.h>
#include <pv/pvAlarm.h>
#include <pv/pvControl.h>
#include <pv/pvDisplay.h>
#include <pv/pvEnumerated.h>
#include <pv/pvTimeStamp.h>
#include <set>
#include <cmath>
using namespace gp;
using namespace epics::pvData;
namespace {
using std::string; using std::vector;
typedef __int128 I128;
const I128 G = 1000000000;
string show128(I128 v) { bool n = v < 0; if(n) v = -v; string s; do { s += (char)('0' + (int)(v % 10)); v /= 10; } while(v); if(n) s += '-'; std::reverse(s.begin(), s.end()); return s; }
I128 val(const TimeStamp& t) { return (I128)t.getSecondsPastEpoch() * G + t.getNanoseconds(); }
int64_t genSec(Ctx& c) { switch(c.u(8)) { case 0: return (int64_t)c.u(4) - 2; case 1: return 631152000 + (int64_t)c.u(5) - 2; case 2: return ((int64_t)1 << 31) + c.u(5) - 2; case 3: return ((int64_t)1 << 32) + 631152000 + c.u(5) - 2; case 4: { int64_t v = 9223372036ll + (int64_t)c.u(5) - 2; return c.coin() ? v : -v; } case 5: { int64_t v = (int64_t)(c.bits() >> 3); return c.coin() ? v : -v; } case 6: return 1600000000 + (int64_t)c.u(100000); default: return -(int64_t)c.u(2000000000); } }
int32_t genNs(Ctx& c) { static const int32_t v[] = {0, 1, 999999999, 1000000000, 500000000, -1, -999999999, -1000000000, 2147483647, -2147483647 - 1, 1000000001, 2000000000, 999999, 1000000}; return c.coin() ? v[c.u(14)] : (int32_t)c.bits(); }
double genDelta(Ctx& c) { double d; switch(c.u(7)) { case 0: d = c.u(3); break; case 1: d = 0.5 * c.u(9); break; case 2: d = c.u(1000000000) * 1e-9; break; case 3: d = c.u(100000) + c.u(1000) * 1e-3; break; case 4: d = 0.999999999; break; case 5: d = (double)c.u(4000000000u) + 1e-7 * c.u(10000000); break; default: d = 1e-9 * c.u(5); } return c.coin() ? d : -d; }
int sgn(I128 v) { return v < 0 ? -1 : v > 0; }
void normal(const TimeStamp& t, const string& at) { CHECK(t.getNanoseconds() >= 0 && t.getNanoseconds() < 1000000000, "not_normalized", "nanoseconds " << t.getNanoseconds() << " after " << at); }
PBT_TEST(time_stamp, 40000, 1500000) {
    TimeStamp t[2]; I128 m[2] = {0, 0}; int32_t tag[2] = {0, 0}; int n = 1 + c.u(8); c.nontrivial(n > 2);
    for(int i = 0; i < n; i++) { int k = c.u(2); std::ostringstream op; switch(c.u(10)) {
        case 0: { int64_t s = genSec(c); int32_t ns = genNs(c); op << "put(" << s << "," << ns << ")"; t[k].put(s, ns); m[k] = (I128)s * G + ns; break; }
        case 1: { int64_t s = genSec(c); int32_t ns = genNs(c), g = (int32_t)c.bits(); op << "TimeStamp(" << s << "," << ns << "," << g << ")"; t[k] = TimeStamp(s, ns, g); m[k] = (I128)s * G + ns; tag[k] = g; break; }
        case 2: { int64_t ms = c.coin() ? genSec(c) : (int64_t)c.u(4000) - 2000; op << "put(" << ms << " ms)"; void (TimeStamp::*p)(int64) = &TimeStamp::put; (t[k].*p)(ms); m[k] = (I128)ms * 1000000; break; }
        case 3: { int64_t s = (int64_t)(c.bits() >> c.range(8, 60)); if(c.coin()) s = -s; op << "+= " << s; t[k] += s; m[k] += (I128)s * G; break; }
        case 4: { int64_t s = (int64_t)(c.bits() >> c.range(8, 60)); if(c.coin()) s = -s; op << "-= " << s; t[k] -= s; m[k] -= (I128)s * G; break; }
        case 5: case 6: { bool minus = c.coin(); double d = genDelta(c); op.precision(17); op << (minus ? "-= " : "+= ") << d; if(minus) { t[k] -= d; d = -d; } else t[k] += d; double ip; double fp = modf(d, &ip); I128 want = m[k] + (I128)(int64_t)ip * G + (int64_t)llrint(fp * 1e9), got = val(t[k]); I128 e = got - want; CHECK(e <= 1 && e >= -1, "add_double", op.str() << " gave " << show128(got) << " expected " << show128(want)); m[k] = got; break; }
        case 7: { time_t s = (time_t)(c.chance(1, 8) ? genSec(c) : (int64_t)c.u(4000000000u)); op << "fromTime_t(" << s << ")"; t[k].fromTime_t(s); m[k] = (I128)s * G; break; }
        case 8: { int32_t g = (int32_t)c.bits(); op << "tag " << g; t[k].setUserTag(g); tag[k] = g; break; }
        default: op << "copy"; t[k] = t[1 - k]; m[k] = m[1 - k]; tag[k] = tag[1 - k]; }
        c.desc << k << ": " << op.str() << "; "; if(m[k] > (I128)G << 60 || m[k] < -((I128)G << 60)) return;
        for(int j = 0; j < 2; j++) { normal(t[j], op.str()); CHECK(val(t[j]) == m[j], "wrong_time", op.str() << " gave " << show128(val(t[j])) << " expected " << show128(m[j])); CHECK_EQ(t[j].getUserTag(), tag[j], "tag", op.str()); CHECK_EQ(t[j].getEpicsSecondsPastEpoch(), t[j].getSecondsPastEpoch() - 631152000, "epics_epoch", op.str());
            I128 ms = m[j] / 1000000; if(m[j] % 1000000 < 0) ms--; if(m[j] < (I128)9000000000000000ll * G && m[j] > -(I128)9000000000000000ll * G) CHECK(t[j].getMilliseconds() == (int64_t)ms, "milliseconds", show128(m[j]) << " ns is " << t[j].getMilliseconds() << " ms");
            double sec = t[j].toSeconds(); long double w = (long double)m[j] / 1e9L; CHECK(fabsl(sec - w) <= fabsl(w) * 4e-16L + 4e-16L, "toSeconds", show128(m[j]) << " ns is " << sec);
            time_t tt = 12345; t[j].toTime_t(tt); CHECK_EQ((int64_t)tt, t[j].getSecondsPastEpoch(), "toTime_t", op.str()); }
        int s = sgn(m[0] - m[1]); CHECK((t[0] == t[1]) == (s == 0) && (t[0] != t[1]) == (s != 0) && (t[0] < t[1]) == (s < 0) && (t[0] <= t[1]) == (s <= 0) && (t[0] > t[1]) == (s > 0) && (t[0] >= t[1]) == (s >= 0), "compare", show128(m[0]) << " and " << show128(m[1]) << " compared wrong");
        if(s == 0) c.label("equal"); long double d = (long double)(m[0] - m[1]) / 1e9L; double g = TimeStamp::diff(t[0], t[1]); CHECK(fabsl(g - d) <= fabsl((long double)(t[0].getSecondsPastEpoch() - t[1].getSecondsPastEpoch())) * 4e-16L + 4e-16L, "diff", "diff " << g << " expected " << (double)d); }
    TimeStamp now; time_t a = time(0); now.getCurrent(); time_t b = time(0); normal(now, "getCurrent"); CHECK(now.getSecondsPastEpoch() >= a - 2 && now.getSecondsPastEpoch() <= b + 2, "now", "getCurrent() gives " << now.getSecondsPastEpoch() << " at " << a);
}
// ---- helpers
struct X { char k; int64_t i; double d; string s; X() : k('i'), i(0), d(0) {} };
X xi(int64_t i) { X x; x.i = i; return x; } X xd(double d) { X x; x.k = 'd'; x.d = d; return x; } X xs(const string& s) { X x; x.k = 's'; x.s = s; return x; }
bool same(const X& a, const X& b) { return a.k == b.k && a.i == b.i && a.s == b.s && (a.d == b.d || (a.d != a.d && b.d != b.d)); }
string showX(const vector<X>& v) { std::ostringstream o; for(auto& x : v) { if(x.k == 'i') o << x.i; else if(x.k == 'd') o << x.d; else o << pbt::quote(x.s); o << " "; } return o.str(); }
struct R { const char* name; ScalarType st; };
struct HAlarm { typedef PVAlarm H; static vector<R> req() { return {{"severity", pvInt}, {"status", pvInt}, {"message", pvString}}; }
    static vector<X> get(H& h) { Alarm a; h.get(a); return {xi(a.getSeverity()), xi(a.getStatus()), xs(a.getMessage())}; }
    static bool set(H& h, const vector<X>& v) { Alarm a; a.setSeverity((AlarmSeverity)v[0].i); a.setStatus((AlarmStatus)v[1].i); a.setMessage(v[2].s); return h.set(a); }
    static vector<X> gen(Ctx& c) { return {xi(c.u(5)), xi(c.u(8)), xs(genStr(c, 12))}; }
    static bool legal(const vector<X>& v) { return v[0].i >= 0 && v[0].i <= 4 && v[1].i >= 0 && v[1].i <= 7; } static vector<X> view(const vector<X>& v) { return v; } static const bool climbs = false; };
struct HTime { typedef PVTimeStamp H; static vector<R> req() { return {{"secondsPastEpoch", pvLong}, {"nanoseconds", pvInt}, {"userTag", pvInt}}; }
    static vector<X> get(H& h) { TimeStamp a; h.get(a); return {xi(a.getSecondsPastEpoch()), xi(a.getNanoseconds()), xi(a.getUserTag())}; }
    static bool set(H& h, const vector<X>& v) { TimeStamp a(v[0].i, (int32_t)v[1].i, (int32_t)v[2].i); return h.set(a); }
    static vector<X> gen(Ctx& c) { return {xi(c.coin() ? (int64_t)c.u(3) : genSec(c)), xi(c.coin() ? (int64_t)c.u(2) * 500000000 : (int64_t)c.u(1000000000)), xi((int32_t)c.u(3))}; }
    static bool legal(const vector<X>&) { return true; }
    static vector<X> view(const vector<X>& v) { I128 n = (I128)v[0].i * G + v[1].i; I128 s = n / G, r = n % G; if(r < 0) { r += G; s--; } return {xi((int64_t)s), xi((int64_t)r), v[2]}; } static const bool climbs = true; };
double genD(Ctx& c) { static const double v[] = {0, 1, -1, 0.1, 1e300, -1e-300, INFINITY, -INFINITY, NAN, 100, 10}; return v[c.u(11)]; }
struct HControl { typedef PVControl H; static vector<R> req() { return {{"limitLow", pvDouble}, {"limitHigh", pvDouble}, {"minStep", pvDouble}}; }
    static vector<X> get(H& h) { Control a; h.get(a); return {xd(a.getLow()), xd(a.getHigh()), xd(a.getMinStep())}; }
    static bool set(H& h, const vector<X>& v) { Control a; a.setLow(v[0].d); a.setHigh(v[1].d); a.setMinStep(v[2].d); return h.set(a); }
    static vector<X> gen(Ctx& c) { return {xd(genD(c)), xd(genD(c)), xd(genD(c))}; } static bool legal(const vector<X>&) { return true; } static vector<X> view(const vector<X>& v) { return v; } static const bool climbs = false; };
struct HDisplay { typedef PVDisplay H; static vector<R> req() { return {{"description", pvString}, {"format", pvString}, {"units", pvString}, {"limitLow", pvDouble}, {"limitHigh", pvDouble}}; }
    static vector<X> get(H& h) { Display a; h.get(a); return {xs(a.getDescription()), xs(a.getFormat()), xs(a.getUnits()), xd(a.getLow()), xd(a.getHigh())}; }
    static bool set(H& h, const vector<X>& v) { Display a; a.setDescription(v[0].s); a.setFormat(v[1].s); a.setUnits(v[2].s); a.setLow(v[3].d); a.setHigh(v[4].d); return h.set(a); }
    static vector<X> gen(Ctx& c) { return {xs(genStr(c, 8)), xs(genStr(c, 4)), xs(genStr(c, 4)), xd(genD(c)), xd(genD(c))}; } static bool legal(const vector<X>&) { return true; } static vector<X> view(const vector<X>& v) { return v; } static const bool climbs = false; };
X readX(const PVFieldPtr& f) { PVScalarPtr s = std::tr1::static_pointer_cast<PVScalar>(f); switch(s->getScalar()->getScalarType()) { case pvString: return xs(s->getAs<string>()); case pvDouble: case pvFloat: return xd(s->getAs<double>()); default: return xi(s->getAs<int64>()); } }
void writeX(const PVFieldPtr& f, const X& x) { PVScalarPtr s = std::tr1::static_pointer_cast<PVScalar>(f); if(x.k == 's') s->putFrom<string>(x.s); else if(x.k == 'd') s->putFrom<double>(x.d); else s->putFrom<int64>(x.i); }
// a structure around the required members, possibly with a defect
TP genNear(Ctx& c, const vector<R>& rq, int depth) {
    vector<string> n; vector<TP> k; int defect = c.chance(2, 3) ? -1 : (int)c.u((uint32_t)rq.size()); int kind = c.u(4); vector<size_t> ord; for(size_t i = 0; i < rq.size(); i++) ord.push_back(i); if(c.chance(1, 3)) std::swap(ord[c.u((uint32_t)ord.size())], ord[c.u((uint32_t)ord.size())]);
    for(size_t i : ord) { TP t = mkScalar(rq[i].st); string nm = rq[i].name; if((int)i == defect) switch(kind) { case 0: continue; case 1: nm += "_"; break; case 2: { ScalarType other[] = {pvLong, pvInt, pvString, pvDouble, pvFloat, pvUInt, pvBoolean}; ScalarType o; do o = other[c.u(7)]; while(o == rq[i].st); t = mkScalar(o); break; } default: t = c.coin() ? mkSArray(rq[i].st) : mkStruct({"value"}, {mkScalar(rq[i].st)}); } n.push_back(nm); k.push_back(t); if(c.chance(1, 6)) { n.push_back("extra" + std::to_string(i)); k.push_back(mkScalar(pvInt)); } }
    if(depth > 0) for(int i = 0; i < 2; i++) if(c.chance(1, 3)) { n.push_back("sub" + std::to_string(i)); k.push_back(c.chance(1, 5) ? mkStruct({"v"}, {mkScalar(pvInt)}) : genNear(c, rq, depth - 1)); }
    return mkStruct(n, k); }
void collect(const PVFieldPtr& f, vector<PVFieldPtr>& out) { out.push_back(f); if(f->getField()->getType() == structure) for(auto& k : std::tr1::static_pointer_cast<PVStructure>(f)->getPVFields()) collect(k, out); }
vector<PVFieldPtr> required(const PVFieldPtr& f, const vector<R>& rq, bool climbs) {
    vector<PVFieldPtr> r; if(f->getField()->getType() != structure) return r; const PVStructure* s = static_cast<const PVStructure*>(f.get());
    while(s) { r.clear(); for(auto& q : rq) { const StringArray& nm = s->getStructure()->getFieldNames(); for(size_t i = 0; i < nm.size(); i++) if(nm[i] == q.name) { FieldConstPtr t = s->getStructure()->getFields()[i]; if(t->getType() == scalar && static_cast<const Scalar&>(*t).getScalarType() == q.st) r.push_back(s->getPVFields()[i]); } } if(r.size() == rq.size()) return r; if(!climbs) break; s = s->getParent(); }
    r.clear(); return r; }
template<class K> void helperHistory(Ctx& c) {
    vector<R> rq = K::req(); vector<PVFieldPtr> pool; vector<PVStructurePtr> tops; for(int i = 0; i < 2; i++) { TP t = genNear(c, rq, 2); c.desc << show(t) << "\n"; PVStructurePtr p = makeStruct(defaultValue(t)); tops.push_back(p); collect(p, pool); } PVFieldPtr un = make(defaultValue(genType(c))); pool.push_back(un);
    typename K::H h; vector<PVFieldPtr> at; int n = 2 + c.u(14); c.nontrivial(n > 4);
    for(int i = 0; i < n; i++) { switch(c.weighted({5, 1, 5, 3, 1})) {
        case 0: { PVFieldPtr f = pool[c.u((uint32_t)pool.size())]; vector<PVFieldPtr> want = required(f, rq, K::climbs); c.desc << "attach " << f->getFullName() << "; "; bool r = h.attach(f); CHECK_EQ(r, !want.empty(), "attach", "attach to " << *f->getField()); at = want; c.label(r ? "attached" : "refused"); break; }
        case 1: c.desc << "detach; "; h.detach(); at.clear(); break;
        case 2: { vector<X> v = K::gen(c); if(at.empty()) { bool t = false; try { K::set(h, v); } catch(std::logic_error&) { t = true; } CHECK(t, "set_detached", "set() on a detached helper"); break; }
            vector<X> old; bool imm = false; for(auto& f : at) { old.push_back(readX(f)); imm = imm || f->isImmutable(); } if(c.chance(1, 2)) for(size_t j = 0; j < v.size(); j++) if(c.coin() && K::legal(old)) v[j] = K::view(old)[j]; c.desc << "set " << showX(v) << "; "; bool r; try { r = K::set(h, v); } catch(std::exception& e) { FAIL("set_threw", string("set() threw ") + e.what()); }
            bool changed = false; for(size_t j = 0; j < at.size(); j++) { X now = readX(at[j]); if(imm) CHECK(same(now, old[j]), "immutable_changed", "field " << j << " changed though one is immutable"); else CHECK(same(now, v[j]), "set_wrong", "fields do not hold " << showX(v)); changed = changed || !same(now, old[j]); }
            if(imm) CHECK(!r, "set_result", "set() of immutable fields returned true"); else if(changed) CHECK(r, "set_result", "set() returned false after a change"); if(imm) c.label("immutable"); break; }
        case 3: { if(pool.empty()) break; vector<PVFieldPtr> t; for(auto& f : at.empty() || c.chance(1, 5) ? pool : at) if(f != un && f->getField()->getType() == scalar && !f->isImmutable()) t.push_back(f); if(t.empty()) break; PVFieldPtr f = t[c.u((uint32_t)t.size())]; ScalarType st = static_cast<const Scalar&>(*f->getField()).getScalarType(); X x; if(st == pvString) x = xs(genStr(c, 6)); else if(st == pvDouble || st == pvFloat) x = xd(genD(c)); else if(st == pvLong) x = xi(genSec(c)); else if(st == pvInt) x = xi(c.coin() ? (int64_t)c.u(12) - 2 : (int64_t)genNs(c)); else break; c.desc << "write " << f->getFullName() << "=" << showX({x}) << "; "; writeX(f, x); break; }
        default: { PVFieldPtr f = pool[c.u((uint32_t)pool.size())]; if(c.chance(1, 2) && !at.empty()) f = at[c.u((uint32_t)at.size())]; c.desc << "immutable " << f->getFullName() << "; "; f->setImmutable(); } }
        CHECK_EQ(h.isAttached(), !at.empty(), "isAttached", "isAttached()");
        if(at.empty()) { bool t = false; try { K::get(h); } catch(std::logic_error&) { t = true; } CHECK(t, "get_detached", "get() on a detached helper"); }
        else { vector<X> raw; for(auto& f : at) raw.push_back(readX(f)); vector<X> g; bool t = false; try { g = K::get(h); } catch(std::exception&) { t = true; } CHECK_EQ(t, !K::legal(raw), "get_legal", "fields " << showX(raw)); if(!t) { vector<X> w = K::view(raw); for(size_t j = 0; j < w.size(); j++) CHECK(same(g[j], w[j]), "get_wrong", "got " << showX(g) << " of fields " << showX(raw)); } } }
    // a detached helper keeps nothing alive
    if(c.coin()) { if(!at.empty() && c.coin()) h.attach(un); else h.detach(); vector<std::tr1::weak_ptr<PVField> > w; for(auto& f : at) w.push_back(f); at.clear(); pool.clear(); tops.clear(); for(auto& x : w) CHECK(x.expired(), "kept_alive", "a field is kept by a detached helper"); } }
PBT_TEST(alarm, 10000, 300000) { helperHistory<HAlarm>(c); }
PBT_TEST(time, 10000, 300000) { helperHistory<HTime>(c); }
PBT_TEST(control, 10000, 300000) { helperHistory<HControl>(c); }
PBT_TEST(display, 10000, 300000) { helperHistory<HDisplay>(c); }
TP genEnum(Ctx& c, int depth) { vector<string> n; vector<TP> k; int d = c.u(9); if(d != 0) { n.push_back("index"); k.push_back(d == 1 ? mkScalar(pvUInt) : d == 2 ? mkScalar(pvLong) : mkScalar(pvInt)); } if(c.chance(1, 5)) { n.push_back("other"); k.push_back(mkScalar(pvInt)); } if(d != 3) { n.push_back("choices"); k.push_back(d == 4 ? mkSArray(pvInt) : d == 5 ? mkScalar(pvString) : mkSArray(pvString)); } if(depth > 0 && c.coin()) { n.push_back("sub"); k.push_back(genEnum(c, depth - 1)); } return mkStruct(n, k); }
PBT_TEST(enumerated, 15000, 400000) {
    vector<PVFieldPtr> pool; for(int i = 0; i < 2; i++) { TP t = genEnum(c, 1); c.desc << show(t) << "\n"; collect(makeStruct(defaultValue(t)), pool); } pool.push_back(make(defaultValue(genType(c)))); vector<PVStructurePtr> keep; for(auto& f : pool) if(f->getField()->getType() == structure) keep.push_back(std::tr1::static_pointer_cast<PVStructure>(f));
    PVEnumerated h; PVIntPtr ix; PVStringArrayPtr ch; int n = 2 + c.u(14); c.nontrivial(n > 4);
    for(int i = 0; i < n; i++) { switch(c.weighted({5, 1, 4, 4, 2, 1})) {
        case 0: { PVFieldPtr f = pool[c.u((uint32_t)pool.size())]; c.desc << "attach " << f->getFullName() << "; "; ix.reset(); ch.reset(); if(f->getField()->getType() == structure) { PVStructure& s = static_cast<PVStructure&>(*f); for(size_t j = 0; j < s.getPVFields().size(); j++) { if(s.getStructure()->getFieldName(j) == "index") ix = std::tr1::dynamic_pointer_cast<PVInt>(s.getPVFields()[j]); if(s.getStructure()->getFieldName(j) == "choices") ch = std::tr1::dynamic_pointer_cast<PVStringArray>(s.getPVFields()[j]); } } if(!ix || !ch) { ix.reset(); ch.reset(); } CHECK_EQ(h.attach(f), !!ix, "attach", "attach to " << *f->getField()); c.label(ix ? "attached" : "refused"); break; }
        case 1: c.desc << "detach; "; h.detach(); ix.reset(); ch.reset(); break;
        case 2: { int32_t v = c.chance(1, 5) ? (int32_t)c.bits() : (int32_t)c.u(6) - 1; c.desc << "index " << v << "; "; if(!ix) { MUST_THROW(h.setIndex(v), "detached", "setIndex() on a detached helper"); break; } int32_t old = ix->get(); bool im = ix->isImmutable(), r = h.setIndex(v); CHECK_EQ(r, !im, "set_result", "setIndex() result"); CHECK_EQ(ix->get(), im ? old : v, "set_index", "index after setIndex(" << v << ")"); break; }
        case 3: { StringArray v; int k = c.u(5); for(int j = 0; j < k; j++) v.push_back(genStr(c, 6)); c.desc << "choices " << k << "; "; if(!ix) { MUST_THROW(h.setChoices(v), "detached", "setChoices() on a detached helper"); break; } PVStringArray::const_svector old = ch->view(); bool im = ch->isImmutable(), r = h.setChoices(v); CHECK_EQ(r, !im, "set_result", "setChoices() result"); PVStringArray::const_svector now = ch->view(); if(im) CHECK(now.size() == old.size() && std::equal(now.begin(), now.end(), old.begin()), "immutable_changed", "immutable choices changed"); else CHECK(now.size() == v.size() && std::equal(now.begin(), now.end(), v.begin()), "set_choices", "choices after setChoices()"); break; }
        case 4: if(ix && !ix->isImmutable()) { ix->put((int32_t)c.u(5)); } if(ch && !ch->isImmutable() && c.coin()) { PVStringArray::svector d(c.u(4), "w"); ch->replace(freeze(d)); } break;
        default: { PVFieldPtr f = pool[c.u((uint32_t)pool.size())]; if(ix && c.coin()) f = c.coin() ? PVFieldPtr(ix) : PVFieldPtr(ch); c.desc << "immutable " << f->getFullName() << "; "; f->setImmutable(); } }
        CHECK_EQ(h.isAttached(), !!ix, "isAttached", "isAttached()");
        if(!ix) { MUST_THROW(h.getIndex(), "detached", "getIndex()"); MUST_THROW(h.getChoice(), "detached", "getChoice()"); MUST_THROW(h.choicesMutable(), "detached", "choicesMutable()"); MUST_THROW(h.getNumberChoices(), "detached", "getNumberChoices()"); MUST_THROW(h.getChoices(), "detached", "getChoices()"); }
        else { PVStringArray::const_svector now = ch->view(), g = h.getChoices(); int32_t k = ix->get(); CHECK_EQ(h.getIndex(), k, "get", "index"); CHECK_EQ(h.getChoice(), (k >= 0 && (size_t)k < now.size() ? now[k] : string()), "get", "choice at " << k); CHECK_EQ(h.getNumberChoices(), (int32_t)now.size(), "get", "number of choices"); CHECK(g.size() == now.size() && std::equal(now.begin(), now.end(), g.begin()), "get", "choices"); CHECK_EQ(h.choicesMutable(), !ch->isImmutable(), "choicesMutable", "choicesMutable()"); } }
}
PBT_TEST(names, 200, 2000) {
    int v = c.chance(1, 2) ? (int)c.u(12) - 2 : (int)c.bits(); c.desc << v; c.nontrivial(true); static const char* sv[] = {"NONE", "MINOR", "MAJOR", "INVALID", "UNDEFINED"}; static const char* st[] = {"NONE", "DEVICE", "DRIVER", "RECORD", "DB", "CONF", "UNDEFINED", "CLIENT"};
    bool t = false; try { CHECK_EQ((int)AlarmSeverityFunc::getSeverity(v), v, "severity", "severity"); } catch(std::logic_error&) { t = true; } CHECK_EQ(t, v < 0 || v > 4, "severity_range", v); t = false; try { CHECK_EQ((int)AlarmStatusFunc::getStatus(v), v, "status", "status"); } catch(std::logic_error&) { t = true; } CHECK_EQ(t, v < 0 || v > 7, "status_range", v);
    StringArray a = *AlarmSeverityFunc::getSeverityNames(), b = *AlarmStatusFunc::getStatusNames(); CHECK(a == StringArray(sv, sv + 5), "severity_names", "names"); CHECK(b == StringArray(st, st + 8), "status_names", "names");
    if(v >= 0 && v <= 4) { Alarm al; al.setSeverity((AlarmSeverity)v); CHECK_EQ((int)al.getSeverity(), v, "severity", "Alarm"); } if(v >= 0 && v <= 7) { Alarm al; al.setStatus((AlarmStatus)v); CHECK_EQ((int)al.getStatus(), v, "status", "Alarm"); } }
}
