// P04: type descriptors over the wire
#include "gen_pvd.hpp"
using namespace gp; using namespace pvd; using pbt::Ctx;

PBT_TEST(type_roundtrip, 200000, 4000000)
{
    TypeOpts o; if(c.chance(1, 4)) { o.depth = 6; o.nodes = 40; }
    TP t = genType(c, o); bool big = c.coin(); c.desc << show(t) << (big ? " big" : " little"); c.nontrivial(nodes(t) > 1); features(c, t); c.cover(depth(t) > 4, "deep");
    FieldConstPtr f = build(t);
    CHECK(eq(describe(f), t), "build", "constructed type is " << show(describe(f)));
    Out out(genCap(c), big); f->serialize(&out.buf, &out); std::vector<uint8_t> bytes = out.finish(); size_t len = bytes.size();
    bytes.insert(bytes.end(), c.u(3), 0x55);
    bool keep = c.coin(); std::string id = f->getID(); Field* raw = const_cast<Field*>(f.get());
    if(!keep) f.reset(); // then the wire form is all that is left of it
    In in(bytes, genCap(c), big, false, &c); FieldConstPtr g = getFieldCreate()->deserialize(&in.buf, &in);
    CHECK_EQ(in.consumed(), len, "consumed", "bytes consumed of " << pbt::hex(bytes));
    CHECK(g.get() != NULL, "null", "type read back as absent");
    CHECK(eq(describe(g), t), "differs", "read back " << show(describe(g)));
    CHECK_EQ(g->getID(), id, "id", "identifier");
    if(keep) CHECK(g.get() == raw && *g == *f, "instance", "reading back gave another instance than the live equal type");
    FieldConstPtr h = build(t); CHECK(h.get() == g.get(), "interned", "constructing the type again gave another instance than the one read from the wire");
    Out out2(genCap(c), big); g->serialize(&out2.buf, &out2); std::vector<uint8_t> b2 = out2.finish(); bytes.resize(len);
    CHECK(b2 == bytes, "reencode", "re-encoding differs");
}
PBT_TEST(large, 600, 20000)
{
    static const int kinds[] = { LWide, LUnion, LDeep, LNames }; Large l = genLarge(c, kinds[c.u(4)], 20000); TP t = c.coin() ? l.t : l.t->kids[1]; bool big = c.coin(); c.nontrivial(true);
    FieldConstPtr f = build(t); CHECK(eq(describe(f), t), "build", ""); Out out(c.chance(1, 3) ? 65536 + c.u(100000) : genCap(c), big); f->serialize(&out.buf, &out); std::vector<uint8_t> bytes = out.finish(); size_t len = bytes.size(); bytes.insert(bytes.end(), c.u(3), 0x55); bool keep = c.coin(); Field* raw = const_cast<Field*>(f.get()); if(!keep) f.reset();
    In in(bytes, genCap(c), big, false, &c); FieldConstPtr g = getFieldCreate()->deserialize(&in.buf, &in); CHECK_EQ(in.consumed(), len, "consumed", ""); CHECK(g && eq(describe(g), t), "differs", "read back otherwise"); if(keep) CHECK(g.get() == raw, "instance", "another instance than the live equal type"); CHECK(build(t).get() == g.get(), "interned", "");
}
PBT_TEST(null_type, 200, 2000)
{
    bool big = c.coin(); c.desc << "absent type"; std::vector<uint8_t> b(1, 0xff); In in(b, 16, big, false, &c); c.nontrivial();
    FieldConstPtr f = getFieldCreate()->deserialize(&in.buf, &in); CHECK(!f, "null", "absent type read as a type"); CHECK_EQ(in.left(), (size_t)0, "left", "");
    // inside a variant union
    PVUnionPtr u = getPVDataCreate()->createPVVariantUnion(); Out out(64, big); u->serialize(&out.buf, &out); std::vector<uint8_t> bytes = out.finish();
    PVUnionPtr w = getPVDataCreate()->createPVVariantUnion(); w->set(getPVDataCreate()->createPVScalar(pvInt)); In in2(bytes, 64, big, false, &c); w->deserialize(&in2.buf, &in2);
    CHECK(!w->get(), "variant-null", "an absent variant value was read as present"); CHECK(bytes.size() == 1 && bytes[0] == 0xff, "variant-null-bytes", pbt::hex(bytes));
}
PBT_TEST(many_types, 20000, 400000)
{
    // several descriptors back to back in one stream, sharing parts
    bool big = c.coin(); size_t n = 2 + c.u(5); std::vector<TP> ts; std::vector<FieldConstPtr> fs; Out out(genCap(c), big);
    for(size_t i = 0; i < n; i++) {
        TP t = (i && c.coin()) ? (c.coin() ? ts[c.u(ts.size())] : mkStruct({ "p", "q" }, { ts[c.u(ts.size())], ts[c.u(ts.size())] }, "shared")) : genType(c);
        ts.push_back(t); fs.push_back(build(t)); c.desc << show(t) << "; "; fs.back()->serialize(&out.buf, &out);
    }
    c.nontrivial();
    std::vector<uint8_t> bytes = out.finish(); In in(bytes, genCap(c), big, false, &c);
    for(size_t i = 0; i < n; i++) { FieldConstPtr g = getFieldCreate()->deserialize(&in.buf, &in); CHECK(g.get() == fs[i].get(), "instance", "descriptor " << i << " read back as " << show(describe(g)) << " instead of the live " << show(ts[i])); }
    CHECK_EQ(in.left(), (size_t)0, "left", "bytes left");
}
