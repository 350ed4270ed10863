// P07: byte buffers against an array model
#include "gen_pvd.hpp"
using namespace gp; using namespace pvd; using pbt::Ctx;

template<class T> static uint64_t raw(T v) { uint64_t n = 0; memcpy(&n, &v, sizeof v); return n; }
template<class T> static T mk(uint64_t n) { T v; memcpy(&v, &n, sizeof v); return v; }
struct M {
    std::vector<uint8_t> d; size_t pos, lim; bool big;
    void store(size_t at, uint64_t v, size_t w) { for(size_t i = 0; i < w; i++) d[at + i] = (uint8_t)(v >> (8 * (big ? w - 1 - i : i))); }
    uint64_t fetch(size_t at, size_t w) const { uint64_t v = 0; for(size_t i = 0; i < w; i++) v |= (uint64_t)d[at + i] << (8 * (big ? w - 1 - i : i)); return v; }
};
enum Res { OK, ASSERTED };
template<class F> static Res guarded(F f) { try { f(); return OK; } catch(pbt::AssertHit&) { return ASSERTED; } }
#define EXPECT_RES(R, FITS) do { if((R) == OK && !(FITS)) FAIL("accepted", "an access that does not fit was accepted: " << op.str()); \
    if((R) == ASSERTED && (FITS)) FAIL("refused", "a legal access was refused: " << op.str()); if((R) == ASSERTED) { compare(); return; } } while(0)

template<class T> struct Nm; 
#define N_(T, S) template<> struct Nm<T> { static const char* n() { return S; } };
N_(int8, "int8") N_(uint8, "uint8") N_(int16, "int16") N_(uint16, "uint16") N_(int32, "int32") N_(uint32, "uint32") N_(int64, "int64") N_(uint64, "uint64") N_(float, "float") N_(double, "double")
template<class T> static pvd::ScalarType st();
template<> pvd::ScalarType st<int8>() { return pvByte; } template<> pvd::ScalarType st<uint8>() { return pvUByte; } template<> pvd::ScalarType st<int16>() { return pvShort; } template<> pvd::ScalarType st<uint16>() { return pvUShort; }
template<> pvd::ScalarType st<int32>() { return pvInt; } template<> pvd::ScalarType st<uint32>() { return pvUInt; } template<> pvd::ScalarType st<int64>() { return pvLong; } template<> pvd::ScalarType st<uint64>() { return pvULong; }
template<> pvd::ScalarType st<float>() { return pvFloat; } template<> pvd::ScalarType st<double>() { return pvDouble; }

template<class T> struct Named; // named accessors
#define NAMED(T, S) template<> struct Named<T> { static void put(ByteBuffer& b, T v) { b.put##S(v); } static void put(ByteBuffer& b, size_t i, T v) { b.put##S(i, v); } static T get(ByteBuffer& b) { return b.get##S(); } static T get(ByteBuffer& b, size_t i) { return b.get##S(i); } };
NAMED(int8, Byte) NAMED(int16, Short) NAMED(int32, Int) NAMED(int64, Long) NAMED(float, Float) NAMED(double, Double)
template<class T> struct Plain { static void put(ByteBuffer& b, T v) { b.put<T>(v); } static void put(ByteBuffer& b, size_t i, T v) { b.put<T>(i, v); } static T get(ByteBuffer& b) { return b.GET(T); } static T get(ByteBuffer& b, size_t i) { return b.get<T>(i); } };

// returns false when the case must end (an access was refused)
template<class T, class A> static bool elemOp(Ctx& c, ByteBuffer& b, M& m, std::ostringstream& op) {
    size_t w = sizeof(T); size_t kind = c.u(6); bool fits; Res r;
    uint64_t v = genNum(c, st<T>());
    size_t idx = c.chance(1, 20) ? m.lim - std::min(m.lim, c.u(2)) : (m.lim >= w ? c.u(m.lim - w + 1 + (c.chance(1, 30) ? w : 0)) : c.u(m.lim + 1));
    auto res = [&](Res r_, bool fits_) { if(r_ == OK && !fits_) FAIL("accepted", "an access that does not fit was accepted: " << op.str()); if(r_ == ASSERTED && fits_) FAIL("refused", "a legal access was refused: " << op.str()); return r_ == OK; };
    switch(kind) {
    case 0: op << "put<" << Nm<T>::n() << ">"; fits = m.pos + w <= m.lim; r = guarded([&] { A::put(b, mk<T>(v)); }); if(!res(r, fits)) return false; m.store(m.pos, v, w); m.pos += w; return true;
    case 1: { op << "get<" << Nm<T>::n() << ">"; fits = m.pos + w <= m.lim; T g = T(); r = guarded([&] { g = A::get(b); }); if(!res(r, fits)) return false; CHECK_EQ(raw(g), m.fetch(m.pos, w), "get", op.str()); m.pos += w; return true; }
    case 2: op << "put<" << Nm<T>::n() << ">(" << idx << ")"; fits = idx + w <= m.lim; r = guarded([&] { A::put(b, idx, mk<T>(v)); }); if(!res(r, fits)) return false; m.store(idx, v, w); return true;
    case 3: { op << "get<" << Nm<T>::n() << ">(" << idx << ")"; fits = idx + w <= m.lim; T g = T(); r = guarded([&] { g = A::get(b, idx); }); if(!res(r, fits)) return false; CHECK_EQ(raw(g), m.fetch(idx, w), "get-at", op.str()); return true; }
    case 4: { size_t n = c.u((m.lim - m.pos) / w + 1 + (c.chance(1, 30) ? 1 : 0)); op << "putArray<" << Nm<T>::n() << ">x" << n; T* a = new T[n]; std::unique_ptr<T[]> own(a); for(size_t i = 0; i < n; i++) a[i] = mk<T>(genNum(c, st<T>()));
        fits = m.pos + n * w <= m.lim; r = guarded([&] { b.putArray(a, n); }); if(!res(r, fits)) return false; for(size_t i = 0; i < n; i++) { m.store(m.pos, raw(a[i]), w); m.pos += w; } c.label("array put"); return true; }
    default: { size_t n = c.u((m.lim - m.pos) / w + 1 + (c.chance(1, 30) ? 1 : 0)); op << "getArray<" << Nm<T>::n() << ">x" << n; T* a = new T[n]; std::unique_ptr<T[]> own(a); 
        fits = m.pos + n * w <= m.lim; r = guarded([&] { b.getArray(a, n); }); if(!res(r, fits)) return false; for(size_t i = 0; i < n; i++) { CHECK_EQ(raw(a[i]), m.fetch(m.pos, w), "get-array", op.str() << " element " << i); m.pos += w; } c.label("array get"); return true; }
    }
}
PBT_TEST(buffer_ops, 250000, 5000000)
{
    size_t size = c.chance(1, 10) ? c.u(4) : c.u(80); bool wrapped = c.coin(); M m; m.big = c.coin(); m.d.assign(size, 0); m.pos = 0; m.lim = size;
    char* mem = 0; std::unique_ptr<char[]> own; size_t shift = c.u(8); // odd alignments for wrapped storage
    if(wrapped) { own.reset(mem = new char[size + shift]); mem += shift; memset(mem, 0, size); }
    std::unique_ptr<ByteBuffer> bp(wrapped ? new ByteBuffer(mem, size, order(m.big)) : new ByteBuffer(size, order(m.big))); ByteBuffer& b = *bp;
    c.desc << (wrapped ? "wrapped " : "owned ") << size << (m.big ? " big:" : " little:");
    for(size_t i = 0; i < size; i++) b.put<int8>(i, 0);
    auto compare = [&]() {
        CHECK_EQ(b.getSize(), size, "size", ""); CHECK_EQ(b.getPosition(), m.pos, "position", c.desc.str()); CHECK_EQ(b.getLimit(), m.lim, "limit", c.desc.str()); CHECK_EQ(b.getRemaining(), m.lim - m.pos, "remaining", c.desc.str());
        CHECK(size == 0 || memcmp(b.getBuffer(), &m.d[0], size) == 0, "content", "buffer " << pbt::hex(b.getBuffer(), size) << " expected " << pbt::hex(m.d));
    };
    compare();
    size_t ops = 1 + c.u(25); size_t done = 0;
    for(size_t k = 0; k < ops; k++) {
        std::ostringstream op; bool go = true;
        switch(c.u(26)) {
        case 0: b.clear(); m.pos = 0; m.lim = size; op << "clear"; break;
        case 1: b.flip(); m.lim = m.pos; m.pos = 0; op << "flip"; break;
        case 2: b.rewind(); m.pos = 0; op << "rewind"; break;
        case 3: { size_t p = c.u(m.lim + 1); b.setPosition(p); m.pos = p; op << "setPosition(" << p << ")"; break; }
        case 4: { size_t l = m.pos + c.u(size - m.pos + 1); b.setLimit(l); m.lim = l; op << "setLimit(" << l << ")"; break; }
        case 5: m.big = !m.big; b.setEndianess(order(m.big)); op << (m.big ? "setBig" : "setLittle"); break;
        case 6: { size_t n = c.u(m.lim - m.pos + 1 + (c.chance(1, 30) ? 1 : 0)), so = c.u(4); std::unique_ptr<char[]> a(new char[n + so]); for(size_t i = 0; i < n + so; i++) a[i] = (char)c.u(256); op << "put bytes " << so << "," << n;
            bool fits = m.pos + n <= m.lim; Res r = guarded([&] { b.put(a.get(), so, n); }); EXPECT_RES(r, fits); for(size_t i = 0; i < n; i++) m.d[m.pos++] = (uint8_t)a[so + i]; break; }
        case 7: { size_t n = c.u(m.lim - m.pos + 1 + (c.chance(1, 30) ? 1 : 0)), so = c.u(4); std::unique_ptr<char[]> a(new char[n + so]); memset(a.get(), 0x33, n + so); op << "get bytes " << so << "," << n;
            bool fits = m.pos + n <= m.lim; Res r = guarded([&] { b.get(a.get(), so, n); }); EXPECT_RES(r, fits); for(size_t i = 0; i < so; i++) CHECK(a[i] == 0x33, "get-bytes", "before offset changed"); for(size_t i = 0; i < n; i++) CHECK_EQ((int)(uint8_t)a[so + i], (int)m.d[m.pos++], "get-bytes", op.str()); break; }
        case 8: case 9: go = elemOp<int8, Named<int8> >(c, b, m, op); break;
        case 10: go = elemOp<uint8, Plain<uint8> >(c, b, m, op); break;
        case 11: case 12: go = elemOp<int16, Named<int16> >(c, b, m, op); break;
        case 13: go = elemOp<uint16, Plain<uint16> >(c, b, m, op); break;
        case 14: case 15: go = elemOp<int32, Named<int32> >(c, b, m, op); break;
        case 16: go = elemOp<uint32, Plain<uint32> >(c, b, m, op); break;
        case 17: case 18: go = elemOp<int64, Named<int64> >(c, b, m, op); break;
        case 19: go = elemOp<uint64, Plain<uint64> >(c, b, m, op); break;
        case 20: case 21: go = elemOp<float, Named<float> >(c, b, m, op); break;
        case 22: case 23: go = elemOp<double, Named<double> >(c, b, m, op); break;
        case 24: { bool v = c.coin(); op << "putBoolean"; bool fits = m.pos < m.lim; Res r = guarded([&] { b.putBoolean(v); }); EXPECT_RES(r, fits); m.d[m.pos++] = v; break; }
        default: { bool v = false; op << "getBoolean"; bool fits = m.pos < m.lim; Res r = guarded([&] { v = b.getBoolean(); }); EXPECT_RES(r, fits); CHECK_EQ(v, m.d[m.pos] != 0, "boolean", ""); m.pos++; break; }
        }
        c.desc << " " << op.str(); 
        if(!go) { c.label("refused access"); compare(); return; }
        compare(); done++; if(done > 3) c.nontrivial();
        CHECK(b.reverse<int32>() == (m.big != (EPICS_BYTE_ORDER == EPICS_ENDIAN_BIG)) && b.reverse<double>() == (m.big != (EPICS_FLOAT_WORD_ORDER == EPICS_ENDIAN_BIG)) && !b.reverse<int8>() && !b.reverse<uint8>(), "reverse", "byte order query");
    }
    if(wrapped) { bp.reset(); CHECK(size == 0 || memcmp(mem, &m.d[0], size) == 0, "wrapped", "wrapped storage changed or was released on destruction"); }
}
PBT_TEST(swap_values, 20000, 100000)
{
    uint64_t v = c.bits(); c.desc << std::hex << v; c.nontrivial();
    auto rev = [](uint64_t x, size_t w) { uint64_t r = 0; for(size_t i = 0; i < w; i++) r |= ((x >> (8 * i)) & 0xff) << (8 * (w - 1 - i)); return r; };
    CHECK_EQ(pvd::swap<uint16>((uint16)v), (uint16)rev((uint16)v, 2), "swap16", ""); CHECK_EQ(pvd::swap<uint32>((uint32)v), (uint32)rev((uint32)v, 4), "swap32", ""); CHECK_EQ(pvd::swap<uint64>(v), rev(v, 8), "swap64", "");
    CHECK_EQ(pvd::swap<int16>((int16)v), (int16)rev((uint16)v, 2), "swapi16", ""); CHECK_EQ(pvd::swap<int32>((int32)v), (int32)rev((uint32)v, 4), "swapi32", ""); CHECK_EQ((uint64)pvd::swap<int64>((int64)v), rev(v, 8), "swapi64", "");
    CHECK_EQ((int)pvd::swap<uint8>((uint8)v), (int)(uint8)v, "swap8", "");
}
