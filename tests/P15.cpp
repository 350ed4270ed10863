// P15: scalar conversions against an exact reference conversion
#include "gen_pvd.hpp"
#include <pv/typeCast.h>
#include <pv/anyscalar.h>
#include <float.h>
#include <math.h>
using namespace gp; using namespace epics::pvData;
namespace {
typedef __int128 I;
// a scalar value of any type
struct X { ScalarType st; uint64_t n = 0; std::string s; };
struct R { enum K { Exact, Refused, Any, Near } k; X x; double d; };
bool isInt(ScalarType t) { return t >= pvByte && t <= pvULong; }
bool isFl(ScalarType t) { return t == pvFloat || t == pvDouble; }
bool sgn(ScalarType t) { return t >= pvByte && t <= pvLong; }
I ival(const X& x) { switch(x.st) { case pvBoolean: case pvUByte: return (uint8_t)x.n; case pvByte: return (int8_t)x.n; case pvShort: return (int16_t)x.n; case pvInt: return (int32_t)x.n; case pvLong: return (int64_t)x.n; case pvUShort: return (uint16_t)x.n; case pvUInt: return (uint32_t)x.n; default: return x.n; } }
double dval(const X& x) { if(x.st == pvFloat) { float f; uint32_t u = (uint32_t)x.n; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &x.n, 8); return d; }
X fromI(ScalarType st, I v) { X x; x.st = st; size_t w = width(st); x.n = (uint64_t)v; if(w < 8) x.n &= (1ull << (8 * w)) - 1; return x; }
X fromF(float f) { X x; x.st = pvFloat; uint32_t u; memcpy(&u, &f, 4); x.n = u; return x; }
X fromD(double d) { X x; x.st = pvDouble; memcpy(&x.n, &d, 8); return x; }
X fromS(const std::string& s) { X x; x.st = pvString; x.s = s; return x; }
I lo(ScalarType t) { return sgn(t) ? -((I)1 << (8 * width(t) - 1)) : 0; }
I hi(ScalarType t) { return sgn(t) ? ((I)1 << (8 * width(t) - 1)) - 1 : ((I)1 << (8 * width(t))) - 1; }
std::string istr(I v) { if(v == 0) return "0"; bool neg = v < 0; std::string s; while(v) { int d = (int)(v % 10); s.insert(s.begin(), (char)('0' + (d < 0 ? -d : d))); v /= 10; } return neg ? "-" + s : s; }
std::string show(const X& x) { std::ostringstream o; o << ScalarTypeFunc::name(x.st) << " "; if(x.st == pvString) o << pbt::quote(x.s); else if(isFl(x.st)) { o.precision(17); o << dval(x); } else o << istr(ival(x)); return o.str(); }
bool nanX(const X& x) { return isFl(x.st) && isnan(dval(x)); }
bool same(const X& a, const X& b) { if(a.st != b.st) return false; if(nanX(a) && nanX(b)) return true; if(a.st == pvString) return a.s == b.s; size_t w = width(a.st); uint64_t m = w < 8 ? (1ull << (8 * w)) - 1 : ~0ull; return (a.n & m) == (b.n & m); }
bool ws(char c) { return c == ' ' || (c >= 9 && c <= 13); }
R ex(const X& x) { R r; r.k = R::Exact; r.x = x; return r; }
R kind(R::K k) { R r; r.k = k; return r; }
// text -> integer
R textInt(const std::string& t, ScalarType to) {
    if(t.find('\0') != std::string::npos) return kind(R::Refused);
    size_t i = 0, e = t.size(); while(i < e && ws(t[i])) i++; while(e > i && ws(t[e - 1])) e--; std::string s(t, i, e - i); bool neg = false; if(s.size() && (s[0] == '+' || s[0] == '-')) { neg = s[0] == '-'; s.erase(0, 1); }
    int base = 10; if(s.size() > 1 && s[0] == '0') { if(s[1] == 'b' || s[1] == 'B') return kind(R::Any); if((s[1] == 'x' || s[1] == 'X')) { base = 16; s.erase(0, 2); } else base = 8; }
    if(s.empty()) return kind(R::Refused); I v = 0; bool big = false; for(char c : s) { int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 99; if(d >= base) return kind(R::Refused); v = v * base + d; if(v > ((I)1 << 66)) { big = true; v = (I)1 << 66; } }
    if(neg) v = -v; if(neg && !sgn(to) && v) return big || v < -hi(to) ? kind(R::Any) : kind(R::Any); // libCom follows strtoul
    if(!sgn(to) && v > hi(to) && v >= ((I)1 << 64) - hi(to) - 1 && v < ((I)1 << 64)) return kind(R::Any); // libCom takes these for negative numbers
    if(v < lo(to) || v > hi(to)) return kind(R::Refused); return ex(fromI(to, v)); }
// text -> floating point
R textFl(const std::string& t, ScalarType to) {
    if(t.find('\0') != std::string::npos) return kind(R::Refused);
    size_t i = 0, e = t.size(); while(i < e && ws(t[i])) i++; while(e > i && ws(t[e - 1])) e--; std::string s(t, i, e - i), b = s; if(s.size() && (s[0] == '+' || s[0] == '-')) s.erase(0, 1);
    std::string low; for(char c : s) low += (char)((unsigned char)c < 128 ? tolower(c) : c); bool special = low == "inf" || low == "infinity" || low == "nan";
    if(!special && low.compare(0, 3, "nan") == 0) return kind(R::Any);
    if(!special && low.size() > 1 && low[0] == '0' && low[1] == 'x') return kind(R::Any); // hexadecimal floating point
    if(!special) { size_t p = 0, dg = 0; while(p < s.size() && isdigit((unsigned char)s[p])) { p++; dg++; } if(p < s.size() && s[p] == '.') { p++; while(p < s.size() && isdigit((unsigned char)s[p])) { p++; dg++; } } if(!dg) return kind(R::Refused); if(p < s.size()) { if(s[p] != 'e' && s[p] != 'E') return kind(R::Refused); p++; if(p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if(p >= s.size()) return kind(R::Refused); while(p < s.size() && isdigit((unsigned char)s[p])) p++; if(p < s.size()) return kind(R::Refused); } }
    double d = strtod(b.c_str(), 0); if(special) return to == pvFloat ? ex(fromF((float)d)) : ex(fromD(d));
    if(isinf(d)) return kind(R::Refused); double a = fabs(d); if(a < DBL_MIN) { return d == 0 && s.find_first_of("123456789") > s.find_first_of("eE") ? ex(to == pvFloat ? fromF((float)d) : fromD(d)) : kind(R::Any); }
    if(to == pvDouble) return ex(fromD(d)); if(a > FLT_MAX * 1.0000001) return kind(R::Refused); if(a >= FLT_MAX || a <= FLT_MIN) return kind(R::Any); R r = kind(R::Near); r.x = fromF((float)d); r.d = strtof(b.c_str(), 0); return r; }
R reference(const X& x, ScalarType to) {
    if(x.st == to) return ex(x);
    if(x.st == pvString) { if(to == pvBoolean) { std::string l; for(char c : x.s) l += (char)(c >= 'A' && c <= 'Z' ? c + 32 : c); return l == "true" ? ex(fromI(pvBoolean, 1)) : l == "false" ? ex(fromI(pvBoolean, 0)) : kind(R::Refused); } return isInt(to) ? textInt(x.s, to) : textFl(x.s, to); }
    if(to == pvString) { if(x.st == pvBoolean) return ex(fromS(x.n ? "true" : "false")); if(isInt(x.st)) return ex(fromS(istr(ival(x)))); R r = kind(R::Near); r.x = x; r.x.st = pvString; r.d = dval(x); return r; }
    if(x.st == pvBoolean || to == pvBoolean) return kind(R::Refused);
    if(isInt(x.st) && isInt(to)) return ex(fromI(to, ival(x)));      // out of range: modulo the width
    if(isInt(x.st)) { long double v = sgn(x.st) ? (long double)(int64_t)ival(x) : (long double)(uint64_t)ival(x); return to == pvFloat ? ex(fromF((float)v)) : ex(fromD((double)v)); }
    double d = dval(x); if(to == pvDouble) return ex(fromD(d));
    if(to == pvFloat) { if(d == 0 || !std::isfinite(d)) return ex(fromF((float)d)); float f = fabs(d) >= FLT_MAX ? FLT_MAX : fabs(d) <= FLT_MIN ? FLT_MIN : (float)fabs(d); return ex(fromF(d < 0 ? -f : f)); }
    if(isnan(d) || isinf(d)) return kind(R::Any); long double t = truncl(d); if(t < (long double)lo(to) || t > (long double)hi(to)) return kind(R::Any); return ex(fromI(to, (I)t));
}
void verify(const R& r, bool threw, const X& got, const X& from, ScalarType to, const std::string& how) {
    std::string m = how + ": " + show(from) + " to " + ScalarTypeFunc::name(to);
    switch(r.k) {
    case R::Any: return;
    case R::Refused: CHECK(threw, "not-refused", m << " gave " << show(got)); return;
    case R::Exact: CHECK(!threw, "wrongly-refused", m); CHECK(same(got, r.x), "wrong-value", m << " gave " << show(got) << " instead of " << show(r.x)); return;
    case R::Near: CHECK(!threw, "wrongly-refused", m);
        if(to == pvFloat) { CHECK(same(got, r.x) || dval(got) == r.d, "wrong-value", m << " gave " << show(got)); return; }
        if(isnan(r.d)) { CHECK(got.s.find("nan") != std::string::npos, "wrong-text", m << " gave " << show(got)); return; } char* end; double d = strtod(got.s.c_str(), &end); CHECK(got.s.size() && !*end, "wrong-text", m << " gave " << show(got)); CHECK(d == r.d || fabs(d - r.d) <= fabs(r.d) * 1e-5, "wrong-value", m << " gave " << show(got)); return;
    }
}
// typed storage
#define TYPES(M) M(pvBoolean, boolean) M(pvByte, int8) M(pvShort, int16) M(pvInt, int32) M(pvLong, int64) M(pvUByte, uint8) M(pvUShort, uint16) M(pvUInt, uint32) M(pvULong, uint64) M(pvFloat, float) M(pvDouble, double) M(pvString, std::string)
template<class E> E cxx(const X& x) { E e; memcpy(&e, &x.n, sizeof e); return e; }
template<> std::string cxx<std::string>(const X& x) { return x.s; }
template<class E> X xof(const E& e) { X x; x.st = (ScalarType)ScalarTypeID<E>::value; memcpy(&x.n, &e, sizeof e); return x; }
template<> X xof<std::string>(const std::string& e) { return fromS(e); }
X read(const PVScalarPtr& p) { switch(p->getScalar()->getScalarType()) {
#define M(ID, E) case ID: return xof<E>(std::tr1::static_pointer_cast<PVScalarValue<E> >(p)->get());
    TYPES(M)
#undef M
    } return X(); }
void write(const PVScalarPtr& p, const X& x) { switch(x.st) {
#define M(ID, E) case ID: std::tr1::static_pointer_cast<PVScalarValue<E> >(p)->put(cxx<E>(x)); break;
    TYPES(M)
#undef M
    } }
PVScalarPtr mk(const X& x) { PVScalarPtr p(getPVDataCreate()->createPVScalar(x.st)); write(p, x); return p; }
AnyScalar any(const X& x) { switch(x.st) {
#define M(ID, E) case ID: return AnyScalar(cxx<E>(x));
    TYPES(M)
#undef M
    } return AnyScalar(); }
X readAny(const AnyScalar& a) { switch((int)a.type()) {
#define M(ID, E) case ID: return xof<E>(a.ref<E>());
    TYPES(M)
#undef M
    } return X(); }

template<class TO, class FROM, bool ok> struct Cast { static bool go(const X&, X&) { return false; } };
template<class TO, class FROM> struct Cast<TO, FROM, true> { static bool go(const X& x, X& o) { o = xof<TO>(castUnsafe<TO, FROM>(cxx<FROM>(x))); return true; } };
template<class TO> bool castFrom(const X& x, X& o) { const bool b = std::is_same<TO, boolean>::value, s = std::is_same<TO, std::string>::value; switch(x.st) {
#define M(ID, E) case ID: { const bool fb = std::is_same<E, boolean>::value, fs = std::is_same<E, std::string>::value; return Cast<TO, E, (b == fb || s || fs)>::go(x, o); }
    TYPES(M)
#undef M
    } return false; }

void castInto(ScalarType to, void* e, const X& x) { switch(x.st) {
#define M(ID, F) case ID: { F f(cxx<F>(x)); castUnsafeV(1, to, e, x.st, &f); break; }
    TYPES(M)
#undef M
    } }
struct Post : public PostHandler { int n = 0; void postPut() { n++; } };
std::string genText(Ctx& c, ScalarType to) {
    std::string s; std::ostringstream o;
    switch(c.weighted({ 6, 3, 3, 2, 2, 3, 1 })) {
    case 0: { I v; switch(c.u(4)) { case 0: v = c.range(-200, 200); break; case 1: { static const ScalarType ts[] = { pvByte, pvUByte, pvShort, pvUShort, pvInt, pvUInt, pvLong, pvULong }; ScalarType t = isInt(to) && c.coin() ? to : ts[c.u(8)]; v = (c.coin() ? hi(t) : lo(t)) + c.range(-2, 2); break; } case 2: v = (I)(int64_t)(c.bits() >> c.u(64)); break; default: v = (I)c.bits() * (I)c.u(5); }
        if(c.chance(1, 3)) { bool neg = v < 0; unsigned __int128 w = neg ? -(unsigned __int128)v : (unsigned __int128)v; bool oct = c.coin(); std::string d; do { int k = (int)(w & (oct ? 7 : 15)); d.insert(d.begin(), c.coin() ? "0123456789ABCDEF"[k] : "0123456789abcdef"[k]); w >>= oct ? 3 : 4; } while(w); s = std::string(neg ? "-" : "") + (oct ? "0" : c.coin() ? "0x" : "0X") + d; } else s = istr(v); break; }
    case 1: { double d; uint64_t n = genNum(c, pvDouble, false); memcpy(&d, &n, 8); o.precision((int)c.range(1, 17)); o << d; s = o.str(); break; }
    case 2: s = std::to_string(c.range(-9999, 9999)) + "." + std::to_string(c.u(100000)); if(c.coin()) s += std::string(c.coin() ? "e" : "E") + std::to_string(c.range(-340, 340)); break;
    case 3: s = c.oneOf<std::string>({ "true", "false", "TRUE", "False", "tRuE", "1", "0", "t", "yes", "truee", " true", "fals" }); break;
    case 4: s = c.oneOf<std::string>({ "nan", "inf", "-inf", "Infinity", "NaN", "+5", "-0", "0", "00", "0x", "x", "-", "+", ".", "1.", ".5", "e5", "1e", "1e+", "3.402823e38", "3.5e38", "1.1754e-38", "1e-39", "1e308", "1.8e308", "1e400", "-1e400", "08", "0x1g", "1_000", "1,000", "" }); break;
    case 5: { s = genText(c, to); char ch = c.oneOf<char>({ ' ', 'x', '-', '.', 'e', '\0', '\n', '1', (char)0xff, '"', 'f' }); s.insert(c.u(s.size() + 1), 1, ch); break; }
    default: s = genStr(c); }
    if(c.chance(1, 8)) s = std::string(1 + c.u(2), c.coin() ? ' ' : '\t') + s; if(c.chance(1, 8)) s += c.oneOf<std::string>({ " ", "\n", "\t ", "x", " 1" });
    return s;
}
X genX(Ctx& c, ScalarType st, ScalarType to) { X x; x.st = st; if(st == pvString) x.s = genText(c, to); else { x.n = genNum(c, st); if(isFl(st) && c.coin()) { double d = c.coin() ? (double)c.range(-70000, 70000) / 4 : (double)hi(isInt(to) ? to : pvInt) + (double)c.range(-3, 3) / 2; x = st == pvFloat ? fromF((float)d) : fromD(d); } } return x; }
std::string key(const X& x, ScalarType to) { return std::string(ScalarTypeFunc::name(x.st)) + "->" + ScalarTypeFunc::name(to); }
}
PBT_TEST(scalar, 400000, 20000000)
{
    ScalarType st = c.chance(1, 3) ? pvString : genScalarType(c), to = genScalarType(c); X x = genX(c, st, to); R r = reference(x, to); c.nontrivial(st != to); c.desc << show(x) << " to " << ScalarTypeFunc::name(to) << " "; c.label(key(x, to) + (r.k == R::Refused ? " refused" : "")); bool threw = false; X got; got.st = to;
    PVScalarPtr from(mk(x)), dst; AnyScalar a(any(x));
    switch(c.u(9)) {
    case 0: c.desc << "castUnsafeV"; try { switch(to) {
#define M(ID, E) case ID: { E e = E(); castInto(to, &e, x); got = xof<E>(e); break; }
        TYPES(M)
#undef M
        } } catch(std::runtime_error& e) { threw = true; } verify(r, threw, got, x, to, "castUnsafeV"); break;
    case 1: { c.desc << "castUnsafe"; bool done = false; try { switch(to) {
#define M(ID, E) case ID: done = castFrom<E>(x, got); break;
        TYPES(M)
#undef M
        } } catch(std::runtime_error&) { threw = done = true; } if(done) verify(r, threw, got, x, to, "castUnsafe"); break; }
    case 2: c.desc << "getAs"; try { switch(to) {
#define M(ID, E) case ID: got = xof<E>(from->getAs<E>()); break;
        TYPES(M)
#undef M
        } } catch(std::runtime_error&) { threw = true; } verify(r, threw, got, x, to, "getAs"); break;
    case 3: case 4: { // into a field: unchanged when refused
        X old = genX(c, to, to); if(c.coin() && to == pvString) { size_t lim = 1 + c.u(6); dst = getPVDataCreate()->createPVScalar(getFieldCreate()->createBoundedString(lim)); old.s = old.s.substr(0, lim); if((r.k == R::Exact && r.x.s.size() > lim)) r = kind(R::Refused); else if(r.k == R::Near) r = kind(R::Any); c.label("bounded"); } else dst = getPVDataCreate()->createPVScalar(to); write(dst, old);
        std::tr1::shared_ptr<Post> p(new Post()); dst->setPostHandler(p); std::string how;
        try { switch(c.u(4)) {
            case 0: how = "assign"; dst->assign(*from); break; case 1: how = "copy"; dst->copy(*from); break; case 2: how = "putFrom(AnyScalar)"; dst->putFrom(a); break;
            default: how = "putFrom"; switch(st) {
#define M(ID, E) case ID: dst->putFrom<E>(cxx<E>(x)); break;
            TYPES(M)
#undef M
            } } } catch(std::runtime_error&) { threw = true; }
        c.desc << how; got = read(dst); verify(r, threw, got, x, to, how); if(threw) CHECK(same(got, old), "refused-changed", how << ": " << show(x)); CHECK_EQ(p->n, threw ? 0 : 1, "posted", how); CHECK(same(read(from), x), "source-changed", how); break; }
    case 5: c.desc << "AnyScalar"; CHECK(same(readAny(a), x), "anyscalar", "stored"); try { switch(to) {
#define M(ID, E) case ID: got = xof<E>(a.as<E>()); break;
        TYPES(M)
#undef M
        } } catch(std::runtime_error&) { threw = true; } verify(r, threw, got, x, to, "AnyScalar::as"); break;
    case 6: { c.desc << "Convert"; ConvertPtr cv(getConvert()); bool done = true; try { switch(to) {
        case pvByte: got = xof<int8>(cv->toByte(from)); break; case pvShort: got = xof<int16>(cv->toShort(from)); break; case pvInt: got = xof<int32>(cv->toInt(from)); break; case pvLong: got = xof<int64>(cv->toLong(from)); break;
        case pvUByte: got = xof<uint8>(cv->toUByte(from)); break; case pvUShort: got = xof<uint16>(cv->toUShort(from)); break; case pvUInt: got = xof<uint32>(cv->toUInt(from)); break; case pvULong: got = xof<uint64>(cv->toULong(from)); break;
        case pvFloat: got = xof<float>(cv->toFloat(from)); break; case pvDouble: got = xof<double>(cv->toDouble(from)); break; case pvString: got = fromS(cv->toString(from)); break; default: done = false; } } catch(std::runtime_error&) { threw = true; } if(done) verify(r, threw, got, x, to, "Convert::to"); break; }
    case 7: { c.desc << "Convert from"; ConvertPtr cv(getConvert()); X old = genX(c, to, to); dst = getPVDataCreate()->createPVScalar(to); write(dst, old); bool done = true; try { switch(st) {
        case pvByte: cv->fromByte(dst, cxx<int8>(x)); break; case pvShort: cv->fromShort(dst, cxx<int16>(x)); break; case pvInt: cv->fromInt(dst, cxx<int32>(x)); break; case pvLong: cv->fromLong(dst, cxx<int64>(x)); break;
        case pvUByte: cv->fromUByte(dst, cxx<uint8>(x)); break; case pvUShort: cv->fromUShort(dst, cxx<uint16>(x)); break; case pvUInt: cv->fromUInt(dst, cxx<uint32>(x)); break; case pvULong: cv->fromULong(dst, cxx<uint64>(x)); break;
        case pvFloat: cv->fromFloat(dst, cxx<float>(x)); break; case pvDouble: cv->fromDouble(dst, cxx<double>(x)); break; case pvString: cv->fromString(dst, x.s); break; default: done = false; } } catch(std::runtime_error&) { threw = true; } if(!done) break; got = read(dst); verify(r, threw, got, x, to, "Convert::from"); if(threw) CHECK(same(got, old), "refused-changed", "Convert::from"); break; }
    default: { // C string
        c.desc << "C string"; if(st != pvString || to == pvString || x.s.find('\0') != std::string::npos) break; try { switch(to) {
#define M(ID, E) case ID: got = xof<E>(castUnsafe<E, const char*>(x.s.c_str())); break;
        M(pvBoolean, boolean) M(pvByte, int8) M(pvShort, int16) M(pvInt, int32) M(pvLong, int64) M(pvUByte, uint8) M(pvUShort, uint16) M(pvUInt, uint32) M(pvULong, uint64) M(pvFloat, float) M(pvDouble, double) default: break;
#undef M
        } } catch(std::runtime_error&) { threw = true; } verify(r, threw, got, x, to, "castUnsafe(const char*)"); }
    }
    CHECK(same(read(from), x) && same(readAny(a), x), "source-changed", "");
}
namespace {
template<class E> shared_vector<const E> vec(const std::vector<X>& v) { shared_vector<E> s(v.size()); for(size_t i = 0; i < v.size(); i++) s[i] = cxx<E>(v[i]); return freeze(s); }
template<class E> std::vector<X> xs(const shared_vector<const E>& s) { std::vector<X> v; for(size_t i = 0; i < s.size(); i++) v.push_back(xof<E>(s[i])); return v; }
std::vector<X> readArr(const PVScalarArrayPtr& a) { switch(a->getScalarArray()->getElementType()) {
#define M(ID, E) case ID: return xs<E>(std::tr1::static_pointer_cast<PVValueArray<E> >(a)->view());
    TYPES(M)
#undef M
    } return std::vector<X>(); }
PVScalarArrayPtr mkArr(ScalarType st, const std::vector<X>& v) { PVScalarArrayPtr a(getPVDataCreate()->createPVScalarArray(st)); switch(st) {
#define M(ID, E) case ID: std::tr1::static_pointer_cast<PVValueArray<E> >(a)->replace(vec<E>(v)); break;
    TYPES(M)
#undef M
    } return a; }
bool sameV(const std::vector<X>& a, const std::vector<X>& b) { if(a.size() != b.size()) return false; for(size_t i = 0; i < a.size(); i++) if(!same(a[i], b[i])) return false; return true; }
template<class TO, class FROM, bool ok> struct VCast { static bool go(const std::vector<X>&, std::vector<X>&) { return false; } };
template<class TO, class FROM> struct VCast<TO, FROM, true> { static bool go(const std::vector<X>& v, std::vector<X>& o) { shared_vector<const FROM> s(vec<FROM>(v)); shared_vector<FROM> m(thaw(s)); shared_vector<TO> r(shared_vector_convert<TO>(m)); for(size_t i = 0; i < r.size(); i++) o.push_back(xof<TO>(r[i])); return true; } };
template<class TO> bool vcastFrom(ScalarType st, const std::vector<X>& v, std::vector<X>& o) { const bool b = std::is_same<TO, boolean>::value, s = std::is_same<TO, std::string>::value; switch(st) {
#define M(ID, E) case ID: { const bool fb = std::is_same<E, boolean>::value, fs = std::is_same<E, std::string>::value; return VCast<TO, E, (b == fb || s || fs)>::go(v, o); }
    TYPES(M)
#undef M
    } return false; }
}
PBT_TEST(arrays, 120000, 6000000)
{
    ScalarType st = c.chance(1, 3) ? pvString : genScalarType(c), to = genScalarType(c); size_t n = c.chance(1, 500) ? genLargeN(c, 2000) : c.u(6), may = c.coin() ? n : c.u(n); std::vector<X> v; bool refused = false, any = false; size_t bad = n; std::vector<R> rs; c.desc << ScalarTypeFunc::name(st) << "[] to " << ScalarTypeFunc::name(to) << "[]:";
    for(size_t i = 0; i < n; i++) { X x; for(int k = 0; k < 4; k++) { x = genX(c, st, to); if(reference(x, to).k != R::Refused || (n < 10 ? c.chance(1, 4) : i == may)) break; } if(n > 9 && i && i != may && reference(x, to).k == R::Refused) x = v[0]; v.push_back(x); rs.push_back(reference(x, to)); if(rs.back().k == R::Refused) { if(!refused) bad = i; refused = true; } any |= rs.back().k == R::Any; c.desc << " " << show(x); }
    c.nontrivial(n > 1 && st != to); c.cover(refused, "with an inconvertible element"); std::vector<X> got; bool threw = false; std::string what, how; PVScalarArrayPtr src(mkArr(st, v)), dst; std::vector<X> old;
    if(n == 0 && (st == pvBoolean) != (to == pvBoolean) && st != pvString && to != pvString) any = true; // no element to refuse
    try { switch(c.u(5)) {
    case 0: how = "getAs"; switch(to) {
#define M(ID, E) case ID: { shared_vector<const E> o; src->getAs<E>(o); got = xs<E>(o); break; }
        TYPES(M)
#undef M
        } break;
    case 1: case 2: { dst = getPVDataCreate()->createPVScalarArray(to); size_t k = c.u(4); for(size_t i = 0; i < k; i++) old.push_back(genX(c, to, to)); dst = mkArr(to, old);
        switch(c.u(3)) { case 0: how = "assign"; dst->assign(*src); break; case 1: how = "copy"; dst->copy(*src); break; default: how = "putFrom"; switch(st) {
#define M(ID, E) case ID: dst->putFrom<E>(vec<E>(v)); break;
        TYPES(M)
#undef M
        } } got = readArr(dst); break; }
    case 3: { how = "shared_vector_convert"; bool done = false; switch(to) {
#define M(ID, E) case ID: done = vcastFrom<E>(st, v, got); break;
        TYPES(M)
#undef M
        } if(!done) return; break; }
    default: { how = "convert from void"; shared_vector<const void> in; switch(st) {
#define M(ID, E) case ID: in = shared_vector_convert<const void>(vec<E>(v)); break;
        TYPES(M)
#undef M
        } CHECK_EQ((int)in.original_type(), (int)st, "original_type", ""); size_t cut = 0; if(n > 1 && c.coin()) { cut = c.u(n); in.slice(cut * ScalarTypeFunc::elementSize(st)); v.erase(v.begin(), v.begin() + cut); rs.erase(rs.begin(), rs.begin() + cut); refused = any = false; bad = rs.size(); for(size_t i = 0; i < rs.size(); i++) { if(rs[i].k == R::Refused && !refused) { refused = true; bad = i; } any |= rs[i].k == R::Any; } }
        switch(to) {
#define M(ID, E) case ID: got = xs<E>(shared_vector_convert<const E>(in)); break;
        TYPES(M)
#undef M
        } } } } catch(std::runtime_error& e) { threw = true; what = e.what(); }
    c.desc << " by " << how; c.label(how);
    if(threw) { CHECK(refused || any, "wrongly-refused", how << ": " << what); if(dst) CHECK(sameV(readArr(dst), old), "refused-changed", how);
        size_t p = what.find("at index "); if(p != std::string::npos && !any) CHECK_EQ((size_t)atol(what.c_str() + p + 9), bad, "error-index", what); }
    else { CHECK(!refused, "not-refused", how); CHECK_EQ(got.size(), v.size(), "length", how); for(size_t i = 0; i < v.size(); i++) verify(rs[i], false, got[i], v[i], to, how); }
    if(src) { std::vector<X> s(readArr(src)); CHECK(s.size() >= v.size() && sameV(std::vector<X>(s.end() - v.size(), s.end()), v), "source-changed", how); }
}
PBT_TEST(anyscalar_history, 60000, 3000000)
{
    // type-erased scalars under construction, copy, move, swap, assignment and typed access
    std::vector<AnyScalar> a(3); std::vector<X> m(3); std::vector<bool> full(3, false); size_t n = 2 + c.u(20); c.nontrivial(n > 4);
    for(size_t k = 0; k < n; k++) {
        size_t i = c.u(3), j = c.u(3); ScalarType st = genScalarType(c); X x; x.st = st; if(st == pvString) x.s = c.coin() ? genStr(c) : std::string(c.u(60), 'y'); else x.n = genNum(c, st, false); if(st != pvString && width(st) < 8) x.n &= (1ull << (8 * width(st))) - 1; std::ostringstream d;
        switch(c.u(9)) {
        case 0: d << "assign value"; switch(st) {
#define M(ID, E) case ID: a[i] = cxx<E>(x); break;
            TYPES(M)
#undef M
            } m[i] = x; full[i] = true; break;
        case 1: { d << "construct"; AnyScalar t(any(x)); if(c.coin()) a[i] = t; else a[i] = std::move(t); m[i] = x; full[i] = true; break; }
        case 2: { d << "copy"; AnyScalar t(a[j]); a[i].swap(t); m[i] = m[j]; full[i] = full[j]; break; }
        case 3: { d << "move"; if(i == j) break; if(c.coin()) a[i] = std::move(a[j]); else { AnyScalar t(std::move(a[j])); a[i] = std::move(t); } m[i] = m[j]; full[i] = full[j]; full[j] = false; CHECK(a[j].empty(), "moved-from", ""); break; }
        case 4: d << "swap"; if(i != j) { a[i].swap(a[j]); std::swap(m[i], m[j]); bool f = full[i]; full[i] = full[j]; full[j] = f; } break;
        case 5: d << "clear"; a[i].clear(); full[i] = false; break;
        case 6: d << "assign other"; a[i] = a[j]; m[i] = m[j]; full[i] = full[j]; break;
        case 7: { d << "untyped construct"; switch(st) {
#define M(ID, E) case ID: { E e(cxx<E>(x)); AnyScalar t(st, &e); a[i] = t; break; }
            TYPES(M)
#undef M
            } m[i] = x; full[i] = true; break; }
        default: { d << "write through ref"; if(!full[i] || m[i].st != st) break; switch(st) {
#define M(ID, E) case ID: a[i].ref<E>() = cxx<E>(x); break;
            TYPES(M)
#undef M
            } m[i] = x; }
        }
        c.desc << "; " << i << " " << d.str();
        for(size_t q = 0; q < 3; q++) {
            CHECK(a[q].empty() == !full[q] && (bool)a[q] == full[q], "empty", d.str()); if(!full[q]) { bool th = false; try { a[q].as<double>(); } catch(AnyScalar::bad_cast&) { th = true; } CHECK(th, "as-of-empty", ""); th = false; try { a[q].ref<int32>(); } catch(AnyScalar::bad_cast&) { th = true; } CHECK(th, "ref-of-empty", ""); continue; }
            CHECK_EQ((int)a[q].type(), (int)m[q].st, "type", d.str()); CHECK(same(readAny(a[q]), m[q]), "value", d.str() << ": " << show(readAny(a[q])) << " instead of " << show(m[q]));
            const AnyScalar& cq = a[q]; if(m[q].st == pvString) CHECK(!strcmp((const char*)cq.bufferUnsafe(), m[q].s.c_str()), "buffer", ""); else CHECK(!memcmp(cq.bufferUnsafe(), &m[q].n, width(m[q].st)), "buffer", "");
            size_t wrong = 0, cnt = 0;
#define M(ID, E) if(ID != m[q].st) { cnt++; try { (void)a[q].ref<E>(); } catch(AnyScalar::bad_cast&) { wrong++; } }
            TYPES(M)
#undef M
            CHECK_EQ(wrong, cnt, "ref-of-other-type", d.str());
            PVScalarPtr p(getPVDataCreate()->createPVScalar(m[q].st)); p->putFrom(a[q]); CHECK(same(read(p), m[q]), "putFrom", ""); AnyScalar back; p->getAs(back); CHECK(same(readAny(back), m[q]), "getAs", "");
        }
    }
}
