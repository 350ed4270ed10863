// P01: serialize -> deserialize gives the same value back and consumes exactly the bytes written
#include "gen_pvd.hpp"
using namespace gp; using namespace pvd; using pbt::Ctx;

static size_t capFor(Ctx& c) { return genCap(c); }

PBT_TEST(whole_value, 300000, 6000000)
{
    TP t = genType(c); VP v = genValue(c, t);
    bool big = c.coin(); size_t oc = capFor(c), ic = capFor(c); bool d1 = c.chance(1, 3), d2 = c.chance(1, 3);
    c.desc << show(t) << " = " << show(v) << (big ? " big" : " little") << " out " << oc << " in " << ic << (d1 ? " direct-out" : "") << (d2 ? " direct-in" : "");
    PVFieldPtr a = make(v);
    std::string bad = diff(load(a), v); CHECK(bad.empty(), "store", "stored value reads back differently: " << bad);
    Out out(oc, big, d1, &c);
    // something may already be in the buffer
    size_t lead = c.u(4); for(size_t i = 0; i < lead; i++) out.buf.putByte((int8)0x55);
    a->serialize(&out.buf, &out);
    std::vector<uint8_t> bytes = out.finish();
    if(t->k != KVariant && nodes(t) >= 2 && bytes.size() > 4) c.nontrivial();
    features(c, t); c.cover(out.flushes > 2, "several output buffers"); c.cover(out.directs, "direct serialization used");
    bytes.erase(bytes.begin(), bytes.begin() + lead);
    size_t tail = c.u(3); size_t len = bytes.size(); bytes.insert(bytes.end(), tail, 0xAA);
    In in(bytes, ic, big, d2, &c);
    PVFieldPtr b = getPVDataCreate()->createPVField(a->getField());
    VP old; PVFieldPtr keep;
    if(c.coin()) { // receiver already holds something, which somebody else may share
        old = genValue(c, t); store(b, old); c.label("receiver in use");
        if(c.coin() && t->k != KStruct) { keep = getPVDataCreate()->createPVField(a->getField()); keep->copyUnchecked(*b); }
    }
    b->deserialize(&in.buf, &in);
    c.cover(in.refills > 2, "several refills"); c.cover(in.directs, "direct deserialization used");
    CHECK_EQ(in.consumed(), len, "consumed", "bytes consumed " << pbt::hex(bytes));
    bad = diff(load(b), v); CHECK(bad.empty(), "value", "read back differently (got vs written): " << bad << "\nbytes " << pbt::hex(bytes));
    bad = diff(load(a), v); CHECK(bad.empty(), "source-changed", "serialization changed the source: " << bad);
    if(keep) { bad = diff(load(keep), old); CHECK(bad.empty(), "shared-changed", "a value sharing the receiver's old data changed: " << bad); }
}

PBT_TEST(large, 500, 20000)
{
    Large l = genLarge(c); bool big = c.coin(); size_t oc = l.n > 5000 ? 64 + capFor(c) * 8 : capFor(c), ic = l.n > 5000 ? 64 + capFor(c) * 8 : capFor(c); if(c.chance(1, 4)) { oc = 65536 + c.u(100000); ic = 65536 + c.u(100000); } c.desc << (big ? " big" : " little") << " out " << oc << " in " << ic; c.nontrivial(true);
    PVFieldPtr a = make(l.v); std::string bad = diff(load(a), l.v); CHECK(bad.empty(), "store", bad); bool sub = c.chance(1, 3); PVFieldPtr as = sub ? PVFieldPtr(std::tr1::static_pointer_cast<PVStructure>(a)->getSubFieldT("large")) : a;
    Out out(oc, big, c.chance(1, 3), &c); as->serialize(&out.buf, &out); std::vector<uint8_t> bytes = out.finish(); In in(bytes, ic, big, c.chance(1, 3), &c); PVFieldPtr b = getPVDataCreate()->createPVField(as->getField());
    if(c.coin() && !sub) { VP old = clone(l.v); l.touch(old); store(b, old); c.label("receiver in use"); }
    b->deserialize(&in.buf, &in); CHECK_EQ(in.left(), (size_t)0, "consumed", "bytes left"); VP want = sub ? l.v->kids[1] : l.v; bad = diff(load(b), want); CHECK(bad.empty(), "value", "read back differently: " << bad.substr(0, 300)); CHECK(*as == *b, "equal", "");
}

static TP arrayType(Ctx& c) {
    TypeOpts o; o.depth = 2; o.wide = false; o.fixed = true;
    switch(c.weighted({ 4, 2, 2, 1 })) {
    case 0: return mkSArray(genScalarType(c));
    case 1: return mkArr(KStructArr, genStruct(c, o));
    case 2: return mkArr(KUnionArr, genUnion(c, o));
    default: return mkKind(KVariantArr);
    }
}
PBT_TEST(array_range, 60000, 800000)
{
    TP t = arrayType(c); VP v = genValue(c, t);
    size_t n = t->k == KSArray ? (t->st == pvString ? v->strs.size() : v->nums.size()) : v->kids.size();
    auto arg = [&]() -> size_t { switch(c.weighted({ 6, 2, 1, 1 })) { case 0: return c.u(n + 1); case 1: return n + c.u(3); case 2: return (size_t)-1 - c.u(3); default: return ((size_t)-1) / 2 + c.u(3); } };
    size_t off = arg(), cnt = arg();
    bool big = c.coin(); size_t oc = capFor(c);
    c.desc << show(t) << " = " << show(v) << " offset " << off << " count " << cnt;
    PVFieldPtr f = make(v); std::tr1::shared_ptr<PVArray> a = std::tr1::dynamic_pointer_cast<PVArray>(f);
    Out out(oc, big, c.chance(1, 3), &c);
    a->serialize(&out.buf, &out, off, cnt);
    std::vector<uint8_t> bytes = out.finish();
    size_t o2 = std::min(off, n), c2 = std::min(cnt, n - o2);
    c.nontrivial(c2 > 0 && c2 < n); c.cover(off > n || cnt > n - o2, "range beyond the end");
    VP e = std::make_shared<V>(*v);
    if(t->k == KSArray && t->st == pvString) e->strs.assign(v->strs.begin() + o2, v->strs.begin() + o2 + c2);
    else if(t->k == KSArray) e->nums.assign(v->nums.begin() + o2, v->nums.begin() + o2 + c2);
    else e->kids.assign(v->kids.begin() + o2, v->kids.begin() + o2 + c2);
    In in(bytes, capFor(c), big, c.chance(1, 3), &c);
    PVFieldPtr b = getPVDataCreate()->createPVField(f->getField());
    b->deserialize(&in.buf, &in);
    CHECK_EQ(in.left(), (size_t)0, "consumed", "bytes left over of " << pbt::hex(bytes));
    std::string bad = diff(load(b), e); CHECK(bad.empty(), "range-value", "got vs requested range: " << bad << " bytes " << pbt::hex(bytes));
}
PBT_TEST(fixed_partial_refused, 1500, 50000)
{
    // a fixed size array has no length on the wire, so only all of it can be sent
    size_t n = 1 + c.u(6); TP t = c.weighted({ 3, 1 }) ? mkSArray(pvString, 2, n) : mkSArray(genScalarType(c), 2, n);
    VP v = genValue(c, t); size_t off = c.u(n + 2), cnt = c.u(n + 2);
    c.desc << show(t) << " offset " << off << " count " << cnt;
    PVFieldPtr f = make(v); std::tr1::shared_ptr<PVArray> a = std::tr1::dynamic_pointer_cast<PVArray>(f);
    size_t o2 = std::min(off, n), c2 = std::min(cnt, n - o2); c.nontrivial(c2 != n);
    Out out(4096, false); bool threw = false;
    try { a->serialize(&out.buf, &out, off, cnt); } catch(std::exception&) { threw = true; }
    CHECK_EQ(threw, c2 != n, "fixed-partial", "partial serialization of a fixed size array must be refused, complete one accepted");
}
PBT_TEST(substring, 30000, 300000)
{
    std::string s = genStr(c, 40, true, true); size_t n = s.size();
    auto arg = [&]() -> size_t { switch(c.weighted({ 6, 2, 1, 1 })) { case 0: return c.u(n + 1); case 1: return n + c.u(3); case 2: return (size_t)-1 - c.u(3); default: return ((size_t)-1) / 2 + c.u(3); } };
    size_t off = arg(), cnt = arg(); bool big = c.coin(); bool viaHelper = c.coin();
    c.desc << pbt::quote(s) << " offset " << off << " count " << cnt << (viaHelper ? " helper" : " field");
    Out out(capFor(c), big, false, &c);
    if(viaHelper) SerializeHelper::serializeSubstring(s, off, cnt, &out.buf, &out);
    else { PVStringPtr p = getPVDataCreate()->createPVScalar<PVString>(); p->put(s); p->serialize(&out.buf, &out, off, cnt); }
    std::vector<uint8_t> bytes = out.finish();
    size_t o2 = std::min(off, n), c2 = std::min(cnt, n - o2); std::string want = s.substr(o2, c2);
    c.nontrivial(c2 > 0 && c2 < n);
    In in(bytes, capFor(c), big, false, &c);
    std::string got = SerializeHelper::deserializeString(&in.buf, &in);
    CHECK(got == want, "substring", "got " << pbt::quote(got) << " expected " << pbt::quote(want) << " bytes " << pbt::hex(bytes));
    CHECK_EQ(in.left(), (size_t)0, "consumed", "left over");
}
PBT_TEST(via_vector, 40000, 300000)
{
    TP t = genType(c); VP v = genValue(c, t); bool big = c.coin();
    c.desc << show(t) << " = " << show(v); c.nontrivial(nodes(t) > 1);
    PVFieldPtr a = make(v); std::vector<epicsUInt8> bytes(c.u(3), 0x11); size_t lead = bytes.size();
    serializeToVector(a.get(), order(big), bytes);
    for(size_t i = 0; i < lead; i++) CHECK_EQ((int)bytes[i], 0x11, "append", "existing content of the vector was changed");
    bytes.erase(bytes.begin(), bytes.begin() + lead);
    PVFieldPtr b = getPVDataCreate()->createPVField(a->getField());
    if(bytes.empty()) return;
    deserializeFromVector(b.get(), order(big), bytes);
    std::string bad = diff(load(b), v); CHECK(bad.empty(), "value", bad);
    // one byte short must be refused
    std::vector<epicsUInt8> cut(bytes.begin(), bytes.end() - 1);
    if(!cut.empty()) { PVFieldPtr d = getPVDataCreate()->createPVField(a->getField()); MUST_THROW(deserializeFromVector(d.get(), order(big), cut), "short", "truncated input accepted"); }
}
