// P03: partial updates carry exactly the selected fields
#include "gen_pvd.hpp"
using namespace gp; using namespace pvd; using pbt::Ctx;

// model: the value after applying `from` to `to` for the selected bits
static VP apply(const VP& to, const VP& from, const std::vector<bool>& bits, size_t off = 0) {
    if(off < bits.size() && bits[off]) return clone(from);
    if(to->t->k != KStruct) return clone(to);
    VP r = std::make_shared<V>(*to); size_t o = off + 1;
    for(size_t i = 0; i < r->kids.size(); i++) { r->kids[i] = apply(to->kids[i], from->kids[i], bits, o); o += span(to->t->kids[i]); }
    return r;
}
static TP structType(Ctx& c) {
    TypeOpts o; o.depth = 4; o.nodes = 25;
    if(c.chance(1, 3)) { o.unions = o.compoundArrays = false; o.variants = false; o.arrays = false; } // deep plain structures
    return genStruct(c, o);
}
static void genMask(Ctx& c, size_t n, std::vector<bool>& bits, BitSet& bs) {
    size_t total = n + (c.chance(1, 5) ? 70 : 0); bits.assign(total, false);
    unsigned den = c.oneOf({ 8u, 2u, 3u, 20u });
    switch(c.weighted({ 5, 1, 1, 1 })) {
    case 0: for(size_t i = 0; i < total; i++) bits[i] = c.chance(1, den); if(c.chance(2, 3)) bits[0] = false; break;
    case 1: if(total) bits[c.u(total)] = true; break;
    case 2: break;
    default: for(size_t i = 0; i < total; i++) bits[i] = !c.chance(1, den); break;
    }
    for(size_t i = 0; i < total; i++) if(bits[i]) bs.set((uint32)i);
}
// find a sub-structure of the model and the real thing
static void subStructs(const VP& v, const PVStructurePtr& p, size_t off, std::vector<std::pair<VP, std::pair<PVStructurePtr, size_t> > >& out) {
    out.push_back(std::make_pair(v, std::make_pair(p, off))); size_t o = off + 1;
    for(size_t i = 0; i < v->kids.size(); i++) { if(v->kids[i] && v->kids[i]->t->k == KStruct) subStructs(v->kids[i], std::tr1::dynamic_pointer_cast<PVStructure>(p->getPVFields()[i]), o, out); o += span(v->t->kids[i]); }
}
PBT_TEST(partial_transfer, 110000, 5000000)
{
    TP t = structType(c); size_t n = span(t); VP src = genValue(c, t), dst = genValue(c, t);
    std::vector<bool> bits; BitSet bs; genMask(c, n, bits, bs); bool big = c.coin();
    c.desc << show(t) << "\n from " << show(src) << "\n to " << show(dst) << "\n bits " << bs;
    c.nontrivial(n > 3 && anyBit(bits, 1, n)); c.cover(bits.size() > n, "bits beyond the last field"); c.cover(n > 64, "more than 64 fields");
    PVStructurePtr a = makeStruct(src), b = makeStruct(dst);
    Out out(genCap(c), big, c.chance(1, 3), &c); BitSet before(bs);
    a->serialize(&out.buf, &out, &bs); std::vector<uint8_t> bytes = out.finish();
    Enc e(big); e.partial(src, bits);
    CHECK(bytes == e.b, "partial-bytes", "selected fields were not written exactly: got " << pbt::hex(bytes) << " expected " << pbt::hex(e.b));
    In in(bytes, genCap(c), big, c.chance(1, 3), &c);
    b->deserialize(&in.buf, &in, &bs);
    CHECK_EQ(in.left(), (size_t)0, "left", "bytes left");
    VP want = apply(dst, src, bits); std::string bad = diff(load(b), want);
    CHECK(bad.empty(), "partial-value", "receiver (got vs expected): " << bad);
    bad = diff(load(a), src); CHECK(bad.empty(), "source-changed", bad);
    CHECK(bs == before, "mask-changed", "the change set was modified");
}
PBT_TEST(masked_copy, 80000, 4000000)
{
    TP t = structType(c); size_t n = span(t); VP src = genValue(c, t), dst = genValue(c, t);
    std::vector<bool> bits; BitSet bs; genMask(c, n, bits, bs); bool inverse = c.chance(1, 3);
    c.desc << show(t) << "\n from " << show(src) << "\n to " << show(dst) << "\n bits " << bs << (inverse ? " inverse" : "");
    c.nontrivial(n > 3 && anyBit(bits, 1, n)); c.cover(inverse, "inverse");
    PVStructurePtr a = makeStruct(src), b = makeStruct(dst);
    b->copyUnchecked(*a, bs, inverse);
    if(inverse) { bits.resize(std::max(bits.size(), n)); bits.flip(); }
    std::string bad = diff(load(b), apply(dst, src, bits)); CHECK(bad.empty(), "masked-copy", "(got vs expected): " << bad);
    bad = diff(load(a), src); CHECK(bad.empty(), "source-changed", bad);
    // later changes stay apart
    VP src2 = clone(src); ValOpts vo; if(mutate(c, src2, vo)) { store(a, src2); bad = diff(load(b), apply(dst, src, bits)); CHECK(bad.empty(), "aliased", "changing the source after the copy changed the copy: " << bad); }
}
PBT_TEST(large, 500, 20000)
{
    static const int kinds[] = { LWide, LWide, LDeep, LDeep }; Large l = c.chance(2, 3) ? genLarge(c, kinds[c.u(4)], 3000) : genLarge(c, 20000); size_t n = span(l.t); VP src = l.v, dst = c.coin() ? defaultValue(l.t) : clone(l.v); l.touch(src); c.nontrivial(true);
    std::vector<bool> bits(n); BitSet bs; size_t m = c.weighted({ 1, 3, 3, 2 }); unsigned den = c.oneOf({ 2u, 10u, 100u, 1000u });
    for(size_t i = 1; i < n; i++) bits[i] = m == 1 ? c.chance(1, den) : m == 2 ? !c.chance(1, den) : m == 3 ? i + 1 + c.u(3) >= n : i == 2; if(m == 0 && c.coin()) bits[0] = true;
    for(size_t i = 0; i < n; i++) if(bits[i]) bs.set((uint32)i); c.desc << " mask " << m << " of " << n;
    PVStructurePtr a = makeStruct(src), b = makeStruct(dst), d = makeStruct(dst), e2 = makeStruct(dst); bool big = c.coin(); size_t oc = 64 + genCap(c), ic = 64 + genCap(c);
    Out out(oc, big, c.chance(1, 3), &c); a->serialize(&out.buf, &out, &bs); std::vector<uint8_t> bytes = out.finish(); Enc e(big); e.partial(src, bits); CHECK(bytes == e.b, "partial-bytes", "selected fields were not written exactly");
    In in(bytes, ic, big, c.chance(1, 3), &c); b->deserialize(&in.buf, &in, &bs); CHECK_EQ(in.left(), (size_t)0, "left", "bytes left"); VP want = apply(dst, src, bits); std::string bad = diff(load(b), want); CHECK(bad.empty(), "partial-value", "receiver (got vs expected): " << bad.substr(0, 300));
    d->copyUnchecked(*a, bs); bad = diff(load(d), want); CHECK(bad.empty(), "masked-copy", bad.substr(0, 300)); e2->copyUnchecked(*a, bs, true); bits.flip(); bad = diff(load(e2), apply(dst, src, bits)); CHECK(bad.empty(), "masked-copy", "inverse: " << bad.substr(0, 300));
}
PBT_TEST(substructure_update, 30000, 1000000)
{
    // the same rules, applied to a member structure with the numbering of the whole
    TP t = structType(c); size_t n = span(t); VP src = genValue(c, t), dst = genValue(c, t);
    std::vector<bool> bits; BitSet bs; genMask(c, n, bits, bs); bool big = c.coin();
    PVStructurePtr a = makeStruct(src), b = makeStruct(dst);
    std::vector<std::pair<VP, std::pair<PVStructurePtr, size_t> > > sa, sb; subStructs(src, a, 0, sa); subStructs(dst, b, 0, sb);
    size_t k = c.u(sa.size()); c.nontrivial(k > 0 && anyBit(bits, sa[k].second.second, span(sa[k].first->t)));
    c.desc << show(t) << "\n from " << show(src) << "\n to " << show(dst) << "\n bits " << bs << " sub-structure " << k;
    size_t off = sa[k].second.second;
    if(c.coin()) {
        Out out(genCap(c), big); sa[k].second.first->serialize(&out.buf, &out, &bs); std::vector<uint8_t> bytes = out.finish();
        Enc e(big); e.partial(sa[k].first, bits, off); CHECK(bytes == e.b, "sub-bytes", "got " << pbt::hex(bytes) << " expected " << pbt::hex(e.b));
        In in(bytes, genCap(c), big, false, &c); sb[k].second.first->deserialize(&in.buf, &in, &bs); CHECK_EQ(in.left(), (size_t)0, "left", "bytes left");
    } else sb[k].second.first->copyUnchecked(*sa[k].second.first, bs);
    std::string bad = diff(load(*sb[k].second.first), apply(sb[k].first, sa[k].first, bits, off)); CHECK(bad.empty(), "sub-value", "(got vs expected): " << bad);
    std::vector<bool> none(n); std::vector<bool> only(n); for(size_t i = 0; i < n; i++) only[i] = i >= off && i < off + span(sa[k].first->t) && i < bits.size() && bits[i];
    bad = diff(load(b), apply(dst, src, only)); CHECK(bad.empty(), "sub-outside", "fields outside the sub-structure: " << bad);
}
