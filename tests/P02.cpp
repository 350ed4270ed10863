// P02: bytes on the wire are exactly those of the pvAccess encoding (independent reference encoder)
#include "gen_pvd.hpp"
using namespace gp; using namespace pvd; using pbt::Ctx;

static std::string hx(const std::vector<uint8_t>& v) { return pbt::hex(v); }
#define SAMEBYTES(GOT, WANT, KEY) do { if((GOT) != (WANT)) { size_t i_ = 0; while(i_ < (GOT).size() && i_ < (WANT).size() && (GOT)[i_] == (WANT)[i_]) i_++; \
    FAIL(KEY, "bytes differ from the specification at offset " << i_ << "\n got      " << hx(GOT) << "\n expected " << hx(WANT)); } } while(0)

PBT_TEST(type_bytes, 100000, 2000000)
{
    TP t = c.chance(1, 60) ? TP() : genType(c); bool big = c.coin();
    c.desc << show(t) << (big ? " big" : " little");
    Enc e(big); e.type(t);
    Out out(genCap(c), big);
    if(t) { c.nontrivial(nodes(t) > 1); features(c, t); build(t)->serialize(&out.buf, &out); SAMEBYTES(out.finish(), e.b, "type-bytes"); }
    In in(e.b, genCap(c), big, false, &c);
    FieldConstPtr f = getFieldCreate()->deserialize(&in.buf, &in);
    CHECK(eq(describe(f), t), "type-decode", "specified encoding decodes to " << show(describe(f)) << " instead of " << show(t));
    CHECK_EQ(in.left(), (size_t)0, "type-left", "bytes left");
}
// type codes the encoding reserves stand for nothing, alone or as a member
PBT_TEST(reserved_codes, 6000, 60000)
{
    unsigned code; bool res;
    do { code = (unsigned)c.u(255); unsigned base = code & 0xe7, arr = code & 0x18;
        res = base < 0x80 ? (base & 0xe0) == 0x40 && base != 0x42 && base != 0x43 : base > 0x83 || (arr && (base == 0x83 || arr != 0x08));
    } while(!res);
    bool big = c.coin(); Enc e(big); size_t where = c.u(4);
    TP s = genStruct(c, TypeOpts());
    if(where == 1) { e.u8(0x80); e.size(0); e.size(1); e.str("a"); } else if(where == 2) { e.u8(0x81); e.size(0); e.size(1); e.str("a"); } else if(where == 3) e.u8(0x88);
    e.u8((uint8_t)code); bool sized = c.coin(); if(sized) e.size(1 + (int64_t)c.u(300)); bool typed = c.coin(); if(typed) e.type(s);
    c.desc << "type code " << std::hex << code << std::dec << (where == 1 ? " in a structure" : where == 2 ? " in a union" : where == 3 ? " as element" : "") << (big ? " big " : " little ") << hx(e.b); c.nontrivial(true);
    In in(e.b, genCap(c), big, false, &c); FieldConstPtr f;
    MUST_THROW(f = getFieldCreate()->deserialize(&in.buf, &in), "reserved-code", hx(e.b));
}
PBT_TEST(value_bytes, 250000, 5000000)
{
    TP t = genType(c); VP v = genValue(c, t); bool big = c.coin();
    c.desc << show(t) << " = " << show(v) << (big ? " big" : " little"); c.nontrivial(nodes(t) > 1); features(c, t);
    Enc e(big); e.value(v);
    Out out(genCap(c), big, c.coin(), &c); PVFieldPtr a = make(v);
    a->serialize(&out.buf, &out); SAMEBYTES(out.finish(), e.b, "value-bytes");
    In in(e.b, genCap(c), big, c.coin(), &c); PVFieldPtr b = getPVDataCreate()->createPVField(a->getField());
    b->deserialize(&in.buf, &in);
    std::string bad = diff(load(b), v); CHECK(bad.empty(), "value-decode", "decoding the specified encoding (got vs encoded): " << bad);
    CHECK_EQ(in.left(), (size_t)0, "value-left", "bytes left");
}
PBT_TEST(large, 500, 20000)
{
    Large l = genLarge(c); bool big = c.coin(); size_t cap = c.chance(1, 3) ? 65536 + c.u(100000) : genCap(c) + (l.n > 5000 ? 200 : 0); c.desc << (big ? " big " : " little ") << cap; c.nontrivial(true);
    { Enc e(big); e.type(l.t); Out out(cap, big); build(l.t)->serialize(&out.buf, &out); CHECK(out.finish() == e.b, "type-bytes", "type"); In in(e.b, cap, big, false, &c); CHECK(eq(describe(getFieldCreate()->deserialize(&in.buf, &in)), l.t), "type-decode", "type"); CHECK_EQ(in.left(), (size_t)0, "type-left", "bytes left"); }
    Enc e(big); e.value(l.v); Out out(cap, big, c.coin(), &c); PVFieldPtr a = make(l.v); a->serialize(&out.buf, &out); std::vector<uint8_t> got = out.finish();
    if(got != e.b) { size_t i = 0; while(i < got.size() && i < e.b.size() && got[i] == e.b[i]) i++; FAIL("value-bytes", "bytes differ at offset " << i << " of " << got.size() << " (expected " << e.b.size() << ")"); }
    In in(e.b, cap, big, c.coin(), &c); PVFieldPtr b = getPVDataCreate()->createPVField(a->getField()); b->deserialize(&in.buf, &in); std::string bad = diff(load(b), l.v); CHECK(bad.empty(), "value-decode", bad.substr(0, 300)); CHECK_EQ(in.left(), (size_t)0, "value-left", "bytes left");
}
PBT_TEST(partial_bytes, 60000, 1000000)
{
    TypeOpts to; TP t = genStruct(c, to); VP v = genValue(c, t); bool big = c.coin(); size_t n = span(t);
    std::vector<bool> bits(n); BitSet bs; for(size_t i = 0; i < n; i++) if(c.chance(1, 3)) { bits[i] = true; bs.set((uint32)i); }
    c.desc << show(t) << " = " << show(v) << " bits " << bs << (big ? " big" : " little"); c.nontrivial(n > 2 && !bs.isEmpty());
    Enc e(big); e.partial(v, bits);
    Out out(genCap(c), big, false); PVStructurePtr a = makeStruct(v);
    a->serialize(&out.buf, &out, &bs); SAMEBYTES(out.finish(), e.b, "partial-bytes");
}
PBT_TEST(size_bytes, 40000, 500000)
{
    bool big = c.coin(); int64_t n;
    switch(c.weighted({ 3, 4, 3, 3, 1 })) {
    case 0: n = c.range(0, 300); break;
    case 1: n = c.oneOf({ (int64_t)250, (int64_t)251, (int64_t)252, (int64_t)253, (int64_t)254, (int64_t)255, (int64_t)256, (int64_t)127, (int64_t)128, (int64_t)0 }); break;
    case 2: { static const int sh[] = { 8, 15, 16, 24, 30 }; n = (1ll << sh[c.u(5)]) + c.range(-2, 2); break; }
    case 3: n = (int64_t)c.draw(1ull << 31); break;
    default: n = c.coin() ? -1 : 0x7fffffffll - (int64_t)c.u(3);
    }
    c.desc << "size " << n << (big ? " big" : " little"); c.nontrivial(n > 253 || n < 0);
    Enc e(big); e.size(n);
    Out out(c.oneOf({ (size_t)16, (size_t)20, (size_t)4096 }), big); size_t lead = c.u(12); for(size_t i = 0; i < lead; i++) out.buf.putByte(7);
    SerializeHelper::writeSize((size_t)n, &out.buf, &out);
    std::vector<uint8_t> got = out.finish(); got.erase(got.begin(), got.begin() + lead);
    SAMEBYTES(got, e.b, "size-bytes");
    In in(e.b, 16, big, false, &c); size_t r = SerializeHelper::readSize(&in.buf, &in);
    CHECK_EQ((int64_t)r, n, "size-decode", hx(e.b)); CHECK_EQ(in.left(), (size_t)0, "size-left", "bytes left");
    // the long form is legal for any size
    if(n >= 0) { Enc l(big); l.u8(0xfe); l.num((uint64_t)n, 4); In in2(l.b, 16, big, false, &c); CHECK_EQ((int64_t)SerializeHelper::readSize(&in2.buf, &in2), n, "size-long-form", hx(l.b)); }
    // a negative 32-bit size means nothing
    Enc neg(big); neg.u8(0xfe); neg.num(0x80000000ull | c.draw(1ull << 31), 4); In in3(neg.b, 16, big, false, &c);
    MUST_THROW(SerializeHelper::readSize(&in3.buf, &in3), "size-negative", hx(neg.b));
}
PBT_TEST(string_bytes, 40000, 500000)
{
    bool big = c.coin(); std::string s = genStr(c, 60, true, true); c.desc << pbt::quote(s); c.nontrivial(s.size() > 3);
    Enc e(big); e.str(s); Out out(genCap(c), big); SerializeHelper::serializeString(s, &out.buf, &out); SAMEBYTES(out.finish(), e.b, "string-bytes");
    In in(e.b, genCap(c), big, false, &c); std::string r = SerializeHelper::deserializeString(&in.buf, &in);
    CHECK(r == s, "string-decode", "got " << pbt::quote(r)); CHECK_EQ(in.left(), (size_t)0, "string-left", "bytes left");
    std::vector<uint8_t> nul(1, 0xff); In in2(nul, 16, big); CHECK(SerializeHelper::deserializeString(&in2.buf, &in2).empty() && in2.left() == 0, "null-string", "an absent string reads as empty");
}
PBT_TEST(bitset_bytes, 40000, 500000)
{
    bool big = c.coin(); size_t n = c.oneOf({ (size_t)0, (size_t)1, (size_t)8, (size_t)9, (size_t)63, (size_t)64, (size_t)65, (size_t)127, (size_t)128, (size_t)129, (size_t)200 }); n = c.coin() ? n : c.u(200); if(c.chance(1, 6)) n = c.coin() ? c.oneOf({ (size_t)256, (size_t)257, (size_t)320, (size_t)511, (size_t)2023, (size_t)2024, (size_t)2025, (size_t)2031, (size_t)2032, (size_t)2033, (size_t)2040, (size_t)2048, (size_t)2049 }) : c.u(5000); unsigned den = n < 300 ? 4 : 60;
    std::vector<bool> bits(n + 1); BitSet b; for(size_t i = 0; i < n; i++) if(c.chance(1, den)) { bits[i] = true; b.set((uint32)i); }
    if(n && c.coin()) { bits[n - 1] = true; b.set((uint32)n - 1); }
    c.desc << b << (big ? " big" : " little"); c.nontrivial(b.cardinality() > 1);
    Enc e(big); e.bitset(bits); Out out(genCap(c), big); b.serialize(&out.buf, &out); SAMEBYTES(out.finish(), e.b, "bitset-bytes");
    // sloppy senders may add zero bytes
    In in(e.b, genCap(c), big, false, &c); BitSet r; r.set(c.u(300)); r.deserialize(&in.buf, &in);
    CHECK(r == b, "bitset-decode", "got " << r << " expected " << b); CHECK_EQ(in.left(), (size_t)0, "bitset-left", "bytes left");
}
PBT_TEST(status_bytes, 20000, 200000)
{
    bool big = c.coin(); int ty = (int)c.u(4); std::string m = genStr(c, 30, true, true), d = genStr(c, 30, true, true);
    c.desc << "status " << ty << " " << pbt::quote(m) << " " << pbt::quote(d); c.nontrivial(ty > 0);
    Status s; if(ty) s = c.chance(1, 4) ? (d.clear(), Status((Status::StatusType)ty, m)) : Status((Status::StatusType)ty, m, d); else { m.clear(); d.clear(); }
    Enc e(big); if(!ty) e.u8(0xff); else { e.u8(ty); e.str(m); e.str(d); }
    Out out(genCap(c), big); s.serialize(&out.buf, &out); SAMEBYTES(out.finish(), e.b, "status-bytes");
    Status r; if(c.coin()) r = Status(Status::STATUSTYPE_FATAL, "old", "older");
    In in(e.b, genCap(c), big, false, &c); r.deserialize(&in.buf, &in);
    CHECK(r.getType() == (Status::StatusType)ty && r.getMessage() == m && r.getStackDump() == d, "status-decode", "got " << r.getType() << " " << pbt::quote(r.getMessage()) << " " << pbt::quote(r.getStackDump()));
    CHECK_EQ(in.left(), (size_t)0, "status-left", "bytes left");
    CHECK(r.isOK() == (ty == 0) && r.isSuccess() == (ty <= 1), "status-query", "isOK/isSuccess");
}
