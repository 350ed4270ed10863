// P26: sub-array copies and text conversion
#include "gen_pvd.hpp"
#include <pv/pvSubArrayCopy.h>
#include <pv/typeCast.h>
#include <cmath>
using namespace gp;
using namespace epics::pvData;
namespace {
using std::string; using std::vector;
typedef unsigned __int128 U;
size_t len(const VP& v) { return v->t->k == KSArray ? (v->t->st == pvString ? v->strs.size() : v->nums.size()) : v->kids.size(); }
void resize(const VP& v, size_t n) { if(v->t->k != KSArray) { size_t o = v->kids.size(); v->kids.resize(n); for(size_t i = o; i < n; i++) v->kids[i] = defaultValue(v->t->k == KVariantArr ? mkKind(KVariant) : v->t->kids[0]); } else if(v->t->st == pvString) v->strs.resize(n); else v->nums.resize(n, 0); }
void put(const VP& d, size_t i, const VP& s, size_t j) { if(d->t->k != KSArray) d->kids[i] = s->kids[j] ? clone(s->kids[j]) : VP(); else if(d->t->st == pvString) d->strs[i] = s->strs[j]; else d->nums[i] = s->nums[j]; }
size_t extent(Ctx& c, size_t n) { switch(c.weighted({10, 3, 2, 1})) { case 0: return c.u((uint32_t)n + 1); case 1: return n + c.u(4); case 2: return c.u(12); default: { size_t h = (size_t)1 << (60 + c.u(4)); switch(c.u(5)) { case 0: return (size_t)-1 - c.u(4); case 1: return h + c.u(3); case 2: return (size_t)0 - n + c.u(3); case 3: return (size_t)-1 / (1 + c.u(5)); default: return h - c.u(3); } } } }
TP elemArr(Ctx& c, int kind) { TypeOpts to; to.depth = 2; to.nodes = 5; switch(kind) { case 1: return mkArr(KStructArr, genStruct(c, to)); case 2: return mkArr(KUnionArr, genUnion(c, to)); case 3: return mkKind(KVariantArr); default: return mkSArray(genScalarType(c)); } }
PBT_TEST(sub_array, 40000, 1000000) {
    ValOpts vo; vo.big = false; vo.maxLen = 8; int kind = c.weighted({6, 2, 1, 1}); TP ft = elemArr(c, kind), tt = ft; if(c.chance(1, 10)) tt = elemArr(c, c.weighted({6, 2, 1, 1})); 
    if(c.chance(1, 200)) { vo.maxLen = 20 + genLargeN(c, kind ? 200 : 4000); c.label("large"); } VP fv = genValue(c, ft, vo), tv = genValue(c, tt, vo); bool self = ft == tt && c.chance(1, 8); size_t fixedTo = 0; bool bounded = false;
    if(!self && tt->k == KSArray && c.chance(1, 4)) { bounded = true; fixedTo = len(tv) + c.u(4); if(c.chance(1, 3)) { tt = mkSArray(tt->st, 2, len(tv)); fixedTo = len(tv); } else tt = mkSArray(tt->st, 1, fixedTo); if(!fixedTo) { bounded = false; tt = mkSArray(tt->st); } auto t2 = std::make_shared<V>(*tv); t2->t = tt; tv = t2; }
    if(!self && tt->k != KSArray && !bounded) {} if(self) tv = fv;
    PVFieldPtr from = make(fv), to = self ? from : make(tv); size_t cap = 0; if(!self && tt->k == KSArray && tt->cls == 0 && c.chance(1, 3)) { cap = len(tv) + c.u(10); dynamic_cast<PVArray&>(*to).setCapacity(cap); } bool imm = c.chance(1, 12); if(imm) to->setImmutable();
    size_t n = len(fv), m = len(tv), fo = extent(c, n), to_ = extent(c, m), fs = c.chance(1, 20) ? extent(c, 2) : 1 + (c.coin() ? c.u(3) : 0), ts = c.chance(1, 20) ? extent(c, 2) : 1 + (c.coin() ? c.u(3) : 0), cnt;
    size_t can = fo < n && fs ? (n - 1 - fo) / fs + 1 : 0; cnt = c.chance(1, 10) ? extent(c, n) : c.chance(1, 8) ? can + 1 : c.u((uint32_t)can + 1);
    c.desc << show(fv) << (self ? " to itself" : " to " + show(tv)) << " cap " << cap << (imm ? " immutable" : "") << " from " << fo << "/" << fs << " to " << to_ << "/" << ts << " count " << cnt; 
    bool same = show(ft) == show(tt) || (ft->k == KSArray && tt->k == KSArray && ft->st == tt->st); if(ft->k == KUnionArr || ft->k == KVariantArr || ft->k == KStructArr) same = eq(ft, tt);
    bool ok = same && !imm && fs && ts; U last = 0; if(cnt) { ok = ok && fo < n && (U)(cnt - 1) * fs + fo < n; last = (U)(cnt - 1) * ts + to_; ok = ok && last < (U)1 << 62; } size_t newLen = m; if(cnt && ok && last + 1 > m) newLen = (size_t)last + 1; if(ok && newLen > (1u << 20)) ok = false; // cannot be had
    if(ok && tt->k == KSArray && ((tt->cls == 1 && newLen > tt->bound) || (tt->cls == 2 && newLen != tt->bound))) { ok = false; c.label("bound"); }
    c.nontrivial(ok && cnt > 1 && (fs > 1 || ts > 1)); if(self) c.label("itself"); if(!ok) c.label("impossible");
    VP want = clone(tv); if(ok) { resize(want, newLen); VP src = clone(fv); for(size_t i = 0; i < cnt; i++) put(want, to_ + i * ts, src, fo + i * fs); }
    bool threw = false; string what;
    try { int how = c.u(3); if(how == 0) copy(dynamic_cast<PVArray&>(*from), fo, fs, dynamic_cast<PVArray&>(*to), to_, ts, cnt); else if(how == 1) { PVArray::shared_pointer a = std::tr1::dynamic_pointer_cast<PVArray>(from), b = std::tr1::dynamic_pointer_cast<PVArray>(to); copy(a, fo, fs, b, to_, ts, cnt); } else if(ft->k == KSArray && tt->k == KSArray) copy(dynamic_cast<PVScalarArray&>(*from), fo, fs, dynamic_cast<PVScalarArray&>(*to), to_, ts, cnt); else if(ft->k == KStructArr && tt->k == KStructArr) copy(dynamic_cast<PVStructureArray&>(*from), fo, fs, dynamic_cast<PVStructureArray&>(*to), to_, ts, cnt); else copy(dynamic_cast<PVArray&>(*from), fo, fs, dynamic_cast<PVArray&>(*to), to_, ts, cnt); }
    catch(std::exception& e) { threw = true; what = e.what(); }

    CHECK(!(threw && ok && (cnt || newLen)), "refused", "possible request refused: " + what); if(!ok && cnt) CHECK(threw, "not_refused", "impossible request accepted, destination now " + show(load(to)));
    string d = diff(load(to), ok ? want : tv); CHECK(d.empty(), ok ? "elements" : "refused_but_changed", d); if(!self) { d = diff(load(from), fv); CHECK(d.empty(), "source_changed", d); }
}
// ---- text
template<class T> bool one(const string& s, uint64_t& n) { try { T x = castUnsafe<T>(s); n = 0; memcpy(&n, &x, sizeof(T)); return true; } catch(std::exception&) { return false; } }
bool fromText(ScalarType st, const string& s, uint64_t& n) {
    switch(st) { case pvBoolean: return one<boolean>(s, n); case pvByte: return one<int8>(s, n); case pvShort: return one<int16>(s, n); case pvInt: return one<int32>(s, n); case pvLong: return one<int64>(s, n); case pvUByte: return one<uint8>(s, n); case pvUShort: return one<uint16>(s, n); case pvUInt: return one<uint32>(s, n); case pvULong: return one<uint64>(s, n); case pvFloat: return one<float>(s, n); case pvDouble: return one<double>(s, n); default: return false; } }
template<class T> string tx(uint64_t n) { T x; memcpy((void*)&x, &n, sizeof(T)); return castUnsafe<string>(x); }
string toText(ScalarType st, uint64_t n) { switch(st) { case pvBoolean: return tx<boolean>(n); case pvByte: return tx<int8>(n); case pvShort: return tx<int16>(n); case pvInt: return tx<int32>(n); case pvLong: return tx<int64>(n); case pvUByte: return tx<uint8>(n); case pvUShort: return tx<uint16>(n); case pvUInt: return tx<uint32>(n); case pvULong: return tx<uint64>(n); case pvFloat: return tx<float>(n); case pvDouble: return tx<double>(n); default: return ""; } }
bool texts(const VP& v, const vector<string>& s) { // store texts in a scalar array model
    if(v->t->cls == 1 && s.size() > v->t->bound) return false; if(v->t->cls == 2 && s.size() != v->t->bound) return false; if(v->t->st == pvString) { v->strs = s; return true; } vector<uint64_t> r; for(auto& x : s) { uint64_t n; if(!fromText(v->t->st, x, n)) return false; r.push_back(n); } v->nums = r; return true; }
vector<string> textsOf(const VP& v) { if(v->t->st == pvString) return v->strs; vector<string> r; for(uint64_t n : v->nums) r.push_back(toText(v->t->st, n)); return r; }
string elemText(Ctx& c, ScalarType st, bool bad) { if(bad) { static const char* b[] = {"", "x", "1x", "--1", "tru", "1e999", "99999999999999999999", " "}; return b[c.u(8)]; } if(st == pvString) { string s = genStr(c, 8); for(auto& ch : s) if(ch == ',') ch = ';'; return s; } return toText(st, genNum(c, st)); }
TP sarr(Ctx& c, size_t near) { ScalarType st = genScalarType(c); switch(c.weighted({8, 1, 1})) { case 1: return mkSArray(st, 1, 1 + c.u(6)); case 2: return mkSArray(st, 2, near ? near : 1 + c.u(3)); default: return mkSArray(st); } }
string join(const vector<string>& s) { string o; for(size_t i = 0; i < s.size(); i++) { if(i) o += ","; o += s[i]; } return o; }
PBT_TEST(array_from_text, 40000, 800000) {
    ValOpts vo; vo.big = false; vo.maxLen = 6; size_t n = c.weighted({1, 3, 3, 3, 2, 2, 1}); TP t = sarr(c, n); VP v = genValue(c, t, vo); vector<string> s; int badness = c.chance(1, 5); for(size_t i = 0; i < n; i++) s.push_back(elemText(c, t->st, badness && c.chance(1, 3))); bool br = n == 0 || c.coin(); string text = join(s); if(br) text = "[" + text + "]"; else if(text.size() > 1 && text[0] == '[' && text[text.size() - 1] == ']') text = "[" + text + "]";
    if(n == 1 && s[0].empty() && br) return; // reads as no elements
    c.desc << show(v) << " from " << pbt::quote(text); c.nontrivial(n > 2); if(len(v) > n) c.label("shrinks"); PVScalarArrayPtr p = std::tr1::dynamic_pointer_cast<PVScalarArray>(make(v)); VP want = clone(v); bool ok = texts(want, s), threw = false; size_t r = 0; string what;
    try { r = getConvert()->fromString(p, text); } catch(std::exception& e) { threw = true; what = e.what(); }
    CHECK(threw == !ok, ok ? "refused" : "not_refused", what); string d = diff(load(*p), ok ? want : v); CHECK(d.empty(), ok ? "elements" : "refused_but_changed", d); if(ok) CHECK_EQ(r, n, "count", "returned number of elements");
}
PBT_TEST(array_roundtrip, 15000, 300000) {
    ValOpts vo; vo.big = false; vo.nan = false; ScalarType st; do st = genScalarType(c); while(st == pvString); TP t = mkSArray(st); VP v = genValue(c, t, vo), o = genValue(c, t, vo); c.desc << show(v) << " over " << show(o); c.nontrivial(len(v) > 2); std::ostringstream s; s.precision(17); s << *make(v); PVScalarArrayPtr p = std::tr1::dynamic_pointer_cast<PVScalarArray>(make(o));
    for(uint64_t n : v->nums) { double d = 0; if(st == pvDouble) memcpy(&d, &n, 8); if(st == pvFloat) { float f; uint32_t b = (uint32_t)n; memcpy(&f, &b, 4); d = f; } if(d != 0 && (fabs(d) < (st == pvFloat ? 1.2e-38 : 2.3e-308) || std::isinf(d) || (st == pvFloat && fabs(d) > 3.4028e38))) return; }
    getConvert()->fromString(p, s.str()); string d = diff(load(*p), v); CHECK(d.empty(), "printed_text", pbt::quote(s.str()) + ": " + d);
}
PBT_TEST(string_arrays, 40000, 800000) {
    ValOpts vo; vo.big = false; vo.maxLen = 6; TP t = sarr(c, 0); VP v = genValue(c, t, vo); size_t n = len(v); PVScalarArrayPtr p = std::tr1::dynamic_pointer_cast<PVScalarArray>(make(v)); StringArray arr; for(int i = c.u(8); i > 0; i--) arr.push_back(elemText(c, t->st, c.chance(1, 12)));
    auto ext = [&](size_t x) { return c.chance(1, 25) ? (size_t)-1 - c.u(3) : c.chance(1, 6) ? x + c.u(4) : (size_t)c.u((uint32_t)x + 1); }; bool threw = false; string what;
    if(c.coin()) { size_t off = ext(n), l = ext(n), to = ext(arr.size()); if(to > 1000 && to < (size_t)-1 - 10) return; c.desc << "strings of " << show(v) << " " << off << "+" << l << " to " << to << " of " << arr.size(); size_t cnt = off > n ? 0 : std::min(l, n - off); c.nontrivial(cnt > 1 && to > 0); StringArray want(arr), got(arr); vector<string> tx = textsOf(v); size_t r = 0;
        bool ok = to < 1000; try { r = getConvert()->toStringArray(p, off, l, got, to); } catch(std::exception& e) { threw = true; what = e.what(); }
        if(!ok) { CHECK(threw || cnt == 0, "far_offset", "accepted"); CHECK(got == arr, "refused_but_changed", "strings changed"); return; } CHECK(!threw, "to_refused", what); CHECK_EQ(r, cnt, "to_count", "returned"); if(cnt) { if(want.size() < to + cnt) want.resize(to + cnt); for(size_t i = 0; i < cnt; i++) want[to + i] = tx[off + i]; CHECK(got == want, "to_strings", "got " + pbt::quote(join(got)) + " expected " + pbt::quote(join(want))); } else CHECK(std::equal(arr.begin(), arr.end(), got.begin()), "to_none", "strings changed"); string d = diff(load(*p), v); CHECK(d.empty(), "array_changed", d); }
    else { size_t off = c.chance(3, 4) ? 0 : ext(n), fo = ext(arr.size()), l = c.chance(3, 4) && fo <= arr.size() ? arr.size() - fo : ext(arr.size()); c.desc << show(v) << " at " << off << " from strings " << fo << "+" << l << " of " << pbt::quote(join(arr)); c.nontrivial(l > 1 && fo > 0); bool have = fo <= arr.size() && l <= arr.size() - fo, whole = off == 0 && l >= n; VP want = clone(v); bool ok = have && whole && texts(want, vector<string>(arr.begin() + fo, arr.begin() + fo + l)); size_t r = 0;
        try { r = getConvert()->fromStringArray(p, off, l, arr, fo); } catch(std::exception& e) { threw = true; what = e.what(); }
        if(ok) CHECK(!threw, "from_refused", what); if(!have && l) CHECK(threw, "from_not_refused", "reads beyond the strings"); string d;
        if(threw) { d = diff(load(*p), v); CHECK(d.empty(), "from_refused_but_changed", d); } else if(ok) { CHECK_EQ(r, l, "from_count", "returned"); d = diff(load(*p), want); CHECK(d.empty(), "from_strings", d); } }
}
// whole structures: one text per scalar or scalar array, in order
void plan(Ctx& c, const VP& v, vector<string>& s, vector<VP>& leafs, bool& unsupported) {
    for(auto& k : v->kids) { if(unsupported) return; if(k->t->k == KStruct) plan(c, k, s, leafs, unsupported); else if(k->t->k == KScalar || k->t->k == KBString) { leafs.push_back(k); ScalarType st = k->t->k == KBString ? pvString : k->t->st; string x = elemText(c, st, c.chance(1, 25)); s.push_back(x); } else if(k->t->k == KSArray) { leafs.push_back(k); vector<string> e; size_t n = k->t->cls == 2 ? k->t->bound : c.u(5); for(size_t i = 0; i < n; i++) e.push_back(elemText(c, k->t->st, c.chance(1, 40))); s.push_back("[" + join(e) + "]"); } else unsupported = true; } }
bool setLeaf(const VP& k, const string& x) { if(k->t->k == KBString) { if(x.size() > k->t->bound) return false; k->str = x; return true; } if(k->t->k == KScalar) { if(k->t->st == pvString) { k->str = x; return true; } return fromText(k->t->st, x, k->num); } string in = x.substr(1, x.size() - 2); vector<string> e; if(!in.empty()) { size_t a = 0, b; while((b = in.find(',', a)) != in.npos) { e.push_back(in.substr(a, b - a)); a = b + 1; } e.push_back(in.substr(a)); } return texts(k, e); }
PBT_TEST(structures, 20000, 500000) {
    TypeOpts to; to.depth = 3; to.nodes = 10; to.unions = to.variants = to.compoundArrays = c.chance(1, 12); ValOpts vo; vo.big = false; TP t = genStruct(c, to); VP v = genValue(c, t, vo), want = clone(v); vector<string> s; vector<VP> leafs; bool unsup = false; plan(c, want, s, leafs, unsup); size_t start = c.chance(1, 3) ? c.u(4) : 0; StringArray in(start, "skipped"); in.insert(in.end(), s.begin(), s.end()); bool few = !s.empty() && c.chance(1, 12); if(few) in.resize(in.size() - 1 - c.u((uint32_t)s.size())); else for(int i = c.u(3); i > 0; i--) in.push_back("more");
    c.desc << show(v) << " from " << pbt::quote(join(in)) << " at " << start; c.nontrivial(leafs.size() > 2); size_t done = 0; bool ok = true; vector<string> avail; for(size_t i = start; i < in.size(); i++) avail.push_back(in[i]); if(avail.size() > s.size()) avail.resize(s.size()); for(size_t i = 0; i < leafs.size() && ok; i++) { if(i >= avail.size() || !setLeaf(leafs[i], avail[i])) ok = false; else done++; } bool full = ok && !unsup; PVStructurePtr p = makeStruct(v); bool threw = false; string what; size_t r = 0;
    try { r = getConvert()->fromString(p, in, start); } catch(std::logic_error& e) { threw = true; what = e.what(); } catch(std::runtime_error& e) { threw = true; what = e.what(); }
    if(full) { CHECK(!threw, "struct_refused", what); CHECK_EQ(r, leafs.size(), "struct_count", "returned number of fields"); string d = diff(load(*p), want); CHECK(d.empty(), "struct_value", d); } else { CHECK(threw, "struct_not_refused", "accepted"); c.label(few ? "too few" : unsup ? "unsupported" : "bad text"); }
}
PBT_TEST(numbers, 20000, 200000) { // the typed conversions are those of the fields
    ScalarType st = genScalarType(c); VP v = std::make_shared<V>(); v->t = mkScalar(st); if(st == pvString) v->str = std::to_string(c.u(100)); else { int x = c.u(128); switch(st) { case pvFloat: { float f = (float)x + .5f; uint32_t b; memcpy(&b, &f, 4); v->num = b; break; } case pvDouble: { double d = x + .25; memcpy(&v->num, &d, 8); break; } case pvBoolean: v->num = x & 1; break; default: v->num = x; } } PVScalarPtr p = std::tr1::dynamic_pointer_cast<PVScalar>(make(v)); ConvertPtr k = getConvert(); int w = c.u(11); c.desc << show(v) << " " << w; c.nontrivial(true);
#define TWO(T, N) { T a = T(), b = T(); bool ta = false, tb = false; try { a = k->to##N(p); } catch(std::exception&) { ta = true; } try { b = p->getAs<T>(); } catch(std::exception&) { tb = true; } CHECK(ta == tb && a == b, "to" #N, "differs from getAs"); PVScalarPtr q = std::tr1::dynamic_pointer_cast<PVScalar>(make(v)), u = std::tr1::dynamic_pointer_cast<PVScalar>(make(v)); T x = castUnsafe<T>((int32)c.u(100)); ta = tb = false; try { k->from##N(q, x); } catch(std::exception&) { ta = true; } try { u->putFrom<T>(x); } catch(std::exception&) { tb = true; } CHECK(ta == tb && eq(load(*q), load(*u)), "from" #N, "differs from putFrom"); break; }
    switch(w) { case 0: TWO(int8, Byte) case 1: TWO(int16, Short) case 2: TWO(int32, Int) case 3: TWO(int64, Long) case 4: TWO(uint8, UByte) case 5: TWO(uint16, UShort) case 6: TWO(uint32, UInt) case 7: TWO(uint64, ULong) case 8: TWO(float, Float) case 9: TWO(double, Double) default: { string s = elemText(c, st, c.chance(1, 5)); PVScalarPtr q = std::tr1::dynamic_pointer_cast<PVScalar>(make(v)); VP want = clone(v); bool ok = setLeaf(want, s), threw = false; try { k->fromString(q, s); } catch(std::exception&) { threw = true; } CHECK(threw == !ok, "fromString", pbt::quote(s)); string d = diff(load(*q), ok ? want : v); CHECK(d.empty(), "fromString_value", d); CHECK_EQ(k->toString(q), q->getAs<string>(), "toString", "differs from getAs"); } }
}
}
