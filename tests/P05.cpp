// P05: decoding arbitrary bytes succeeds with a well-formed object or throws
#include "gen_pvd.hpp"
#include <set>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace gp; using namespace pvd; using pbt::Ctx;
typedef std::vector<uint8_t> Bytes;

// ---- well-formedness of whatever a decoder produced
static void okName(const std::string& n) {
    CHECK(!n.empty() && !(n[0] >= '0' && n[0] <= '9'), "type-name", "illegal field name " << pbt::quote(n));
    for(char ch : n) CHECK((ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || (ch >= '0' && ch <= '9') || ch == '_', "type-name", "illegal field name " << pbt::quote(n));
}
static void okType(const TP& t) {
    CHECK(!!t, "type-null", "missing type inside a type");
    switch(t->k) {
    case KStruct: case KUnion: {
        CHECK(!t->id.empty(), "type-id", "empty id"); CHECK(t->k == KStruct || !t->kids.empty(), "type-union", "restricted union without members");
        CHECK_EQ(t->names.size(), t->kids.size(), "type-members", ""); std::set<std::string> seen;
        for(auto& n : t->names) { okName(n); CHECK(seen.insert(n).second, "type-dup", "duplicate member " << n); }
        for(auto& k : t->kids) okType(k); break; }
    case KStructArr: CHECK(!t->kids.empty() && t->kids[0] && t->kids[0]->k == KStruct, "type-elem", "structure array of something else"); okType(t->kids[0]); break;
    case KUnionArr: CHECK(!t->kids.empty() && t->kids[0] && t->kids[0]->k == KUnion, "type-elem", "union array of something else"); okType(t->kids[0]); break;
    case KBString: CHECK(t->bound > 0, "type-bound", "bounded string of length 0"); break;
    default: break;
    }
}
static void okValue(const VP& v) {
    if(!v) return; const T& t = *v->t;
    if(t.k == KBString) CHECK(v->str.size() <= t.bound, "value-bound", "string of " << v->str.size() << " in a string bounded to " << t.bound);
    if(t.k == KSArray) { size_t n = t.st == pvString ? v->strs.size() : v->nums.size();
        if(t.cls == 1) CHECK(n <= t.bound, "value-bound", "array of " << n << " in an array bounded to " << t.bound);
        if(t.cls == 2) CHECK(n == t.bound || n == 0, "value-fixed", "array of " << n << " in an array fixed to " << t.bound); }
    for(auto& k : v->kids) okValue(k);
}
// every member must know its parent and number
static size_t okTree(const PVStructure& s, size_t at) {
    CHECK_EQ(s.getFieldOffset(), at, "tree-offset", ""); size_t n = at + 1;
    for(auto& k : s.getPVFields()) {
        CHECK(k->getParent() == &s, "tree-parent", "member does not point to its parent");
        if(k->getField()->getType() == structure) n = okTree(static_cast<const PVStructure&>(*k), n); else { CHECK_EQ(k->getFieldOffset(), n, "tree-offset", ""); n++; }
    }
    CHECK_EQ(s.getNextFieldOffset(), n, "tree-next", ""); return n;
}
static VP okObject(const PVField& f) { VP v = load(f); okType(v->t); okValue(v); if(v->t->k == KStruct) okTree(static_cast<const PVStructure&>(f), 0); return v; }

// ---- hostile bytes from a valid encoding
static Bytes corrupt(Ctx& c, Bytes b, const Bytes& other) {
    static const unsigned codes[] = { 0x00, 0x01, 0xff, 0xfe, 0x80, 0x81, 0x82, 0x83, 0x88, 0x89, 0x8a, 0x60, 0x68, 0x70, 0x78, 0x10, 0x18, 0x43, 0x4b, 0x53, 0x5b, 0x22, 0x2a, 0x7f, 0x40, 0xfd, 0x03, 0x90, 0x98, 0x8b, 0x61 };
    size_t n = 1 + c.weighted({ 5, 2, 1, 1 });
    for(size_t i = 0; i < n; i++) {
        size_t p = b.empty() ? 0 : (c.coin() ? c.u(b.size()) : c.u(std::min<size_t>(b.size(), 12)));
        switch(c.weighted({ 4, 3, 3, 2, 2, 2, 2, 1, 1 })) {
        case 0: if(!b.empty()) b[p] = (uint8_t)codes[c.u(sizeof codes / sizeof *codes)]; break;
        case 1: b.resize(p); break;                                       // truncate
        case 2: if(!b.empty()) b[p] ^= (uint8_t)(1u << c.u(8)); break;
        case 3: if(!b.empty()) b[p] = (uint8_t)c.u(256); break;
        case 4: if(!b.empty()) { size_t l = 1 + c.u(std::min<size_t>(b.size() - p, 6)); b.erase(b.begin() + p, b.begin() + p + l); } break;
        case 5: { size_t l = 1 + c.u(5); for(size_t k = 0; k < l; k++) b.insert(b.begin() + p, (uint8_t)(c.coin() ? codes[c.u(sizeof codes / sizeof *codes)] : c.u(256))); break; }
        case 6: { // a huge or negative size
            uint8_t s[5] = { 0xfe, 0, 0, 0, 0 }; uint32_t v = c.oneOf({ 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x10000u, 0x00ffffffu, 0x01000000u, 0xfeu, 0u, 0x40000000u, 0x20000000u }); bool be = c.coin();
            for(int k = 0; k < 4; k++) s[1 + k] = (uint8_t)(v >> (8 * (be ? 3 - k : k)));
            if(!b.empty()) b.erase(b.begin() + p); b.insert(b.begin() + p, s, s + 5); break; }
        case 7: if(!b.empty()) { size_t l = 1 + c.u(std::min<size_t>(b.size() - p, 20)); Bytes s(b.begin() + p, b.begin() + p + l); size_t q = c.u(b.size() + 1); b.insert(b.begin() + q, s.begin(), s.end()); } break;
        default: if(!other.empty()) { size_t q = c.u(other.size()); b.resize(p); b.insert(b.end(), other.begin() + q, other.end()); } break;
        }
    }
    return b;
}
static Bytes noise(Ctx& c) { Bytes b(c.u(40)); for(auto& x : b) x = (uint8_t)(c.coin() ? c.u(256) : c.oneOf({ 0x80, 0x81, 0x88, 0x89, 0x8a, 0x82, 0x83, 0x01, 0x00, 0xff, 0xfe, 0x61, 0x62, 0x02, 0x10, 0x18, 0x08 })); return b; }
static TypeOpts small() { TypeOpts o; o.depth = 3; o.nodes = 9; o.wide = false; return o; }
static ValOpts smallV() { ValOpts o; o.maxLen = 4; o.big = false; return o; }

// runs a decoder; true when it succeeded.  only std::exception is a legal refusal
template<class F> static bool attempt(Ctx& c, F f) {
    try { f(); c.label("accepted"); return true; }
    catch(std::bad_alloc&) { c.label("refused: allocation"); }
    catch(Eof&) { c.label("refused: end of data"); }
    catch(std::exception&) { c.label("refused: other"); }
    return false;
}
struct Limit { Limit() { pbt::allocLimit((size_t)8 << 20); } ~Limit() { pbt::allocLimit((size_t)256 << 20); } };

PBT_TEST(hostile_type, 150000, 8000000)
{
    bool big = c.coin(); TP t = genType(c, small()); Enc e(big); e.type(t); Enc e2(big); e2.type(genType(c, small()));
    Bytes b = c.chance(1, 6) ? noise(c) : corrupt(c, e.b, e2.b); bool direct = c.chance(1, 3); size_t cap = genCap(c);
    c.desc << "type bytes " << pbt::hex(b) << (big ? " big" : " little"); c.nontrivial(b.size() > 1 && b != e.b); Limit lim;
    FieldConstPtr f; In in(b, cap, big, false, &c); in.hostile = true;
    bool ok = attempt(c, [&] { f = direct ? getFieldCreate()->deserialize(&in.buf, &in) : in.cachedDeserialize(&in.buf); });
    if(!ok) { CHECK(!f, "partial", "a type came out of a failed decode"); return; }
    CHECK(in.consumed() <= b.size() && in.consumed() > 0, "consumed", "");
    if(!f) { CHECK(b[0] == 0xff, "absent", "a missing type out of bytes that do not say so"); return; }
    TP got = describe(f); okType(got);
    // what was accepted is a type like any other
    Out o(65536, big); f->serialize(&o.buf, &o); In in2(o.finish(), 65536, big); FieldConstPtr g = getFieldCreate()->deserialize(&in2.buf, &in2);
    CHECK(g == f, "again", "an accepted type does not round-trip: " << show(got)); CHECK(*f == *g, "again-eq", "");
    std::ostringstream s; s << *f; CHECK(!s.str().empty(), "print", "");
    PVFieldPtr v; if(attempt(c, [&] { v = getPVDataCreate()->createPVField(f); })) { okObject(*v); std::ostringstream s2; s2 << *v; }
}
static void stillUsable(Ctx& c, const PVFieldPtr& r, const VP& again, bool big, bool hadFailed) {
    VP now = okObject(*r);
    CHECK(*r == *r, "self-equal", "");
    { std::ostringstream s; s << *r; }
    PVFieldPtr k = getPVDataCreate()->createPVField(r->getField()); 
    try { k->copyUnchecked(*r); } catch(std::exception& e) { FAIL("copy-after", "the receiver can not be copied: " << e.what() << " " << show(now)); }
    std::string bad = diff(load(*k), now); CHECK(bad.empty(), "copy-after", "copy of the receiver differs: " << bad);
    Enc e(big); e.value(again); In in(e.b, 65536, big); r->deserialize(&in.buf, &in);
    bad = diff(load(*r), again); CHECK(bad.empty(), "decode-after", (hadFailed ? "after a failed" : "after an accepted") << " decode the receiver does not decode a valid value: " << bad);
    bad = diff(load(*k), now); CHECK(bad.empty(), "copy-changed", "the copy changed: " << bad);
}
PBT_TEST(hostile_value, 150000, 8000000)
{
    bool big = c.coin(); TP t = genType(c, small()); VP v = genValue(c, t, smallV()), w = genValue(c, t, smallV()), again = genValue(c, t, smallV());
    Enc e(big); e.value(v); Enc e2(big); e2.value(w); Bytes b = c.chance(1, 10) ? noise(c) : corrupt(c, e.b, e2.b); size_t cap = genCap(c); bool d = c.chance(1, 3);
    PVFieldPtr r = getPVDataCreate()->createPVField(build(t)); bool used = c.coin(); if(used) store(r, genValue(c, t, smallV()));
    c.desc << show(t) << " bytes " << pbt::hex(b) << (big ? " big" : " little") << (used ? " receiver in use" : ""); c.nontrivial(b.size() > 1 && nodes(t) > 1); features(c, t);
    PVFieldPtr sharer; VP sharedVal; if(used && c.coin() && t->k != KStruct) { sharer = getPVDataCreate()->createPVField(r->getField()); sharer->copyUnchecked(*r); sharedVal = load(*sharer); }
    Limit lim; In in(b, cap, big, d, &c); in.hostile = true;
    bool ok = attempt(c, [&] { r->deserialize(&in.buf, &in); });
    if(ok) { // everything it accepted must mean what it decoded: re-encode and decode again
        VP got = okObject(*r); Out o(65536, big); 
        r->serialize(&o.buf, &o); Bytes b2 = o.finish(); In in2(b2, 65536, big); PVFieldPtr r2 = getPVDataCreate()->createPVField(r->getField()); r2->deserialize(&in2.buf, &in2);
        std::string bad = diff(load(*r2), got); CHECK(bad.empty(), "reencode", "accepted value does not round-trip: " << bad);
    }
    if(sharer) { std::string bad = diff(load(*sharer), sharedVal); CHECK(bad.empty(), "shared", "decoding changed a value sharing the receiver's old data: " << bad); }
    stillUsable(c, r, again, big, !ok);
}
PBT_TEST(hostile_partial, 60000, 3000000)
{
    bool big = c.coin(); TP t = genStruct(c, small()); VP v = genValue(c, t, smallV()), again = genValue(c, t, smallV());
    size_t n = span(t); std::vector<bool> bits(n + c.u(3) + (c.chance(1, 6) ? 200 : 0)); for(size_t i = 0; i < bits.size(); i++) bits[i] = c.chance(1, 3);
    Enc e(big); bool wire = c.coin(); if(wire) e.bitset(bits); e.partial(v, bits); Enc e2(big); e2.value(again);
    Bytes b = corrupt(c, e.b, e2.b); 
    c.desc << show(t) << (wire ? " set+values " : " values ") << pbt::hex(b); c.nontrivial(n > 2); Limit lim;
    PVStructurePtr r = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(t))); if(c.coin()) store(r, genValue(c, t, smallV())); VP before = load(*r);
    BitSet bs; In in(b, genCap(c), big, c.chance(1, 3), &c); in.hostile = true; 
    if(!wire) for(size_t i = 0; i < bits.size(); i++) if(bits[i]) bs.set(i);
    bool gotSet = !wire;
    bool ok = attempt(c, [&] { if(wire) { bs.deserialize(&in.buf, &in); gotSet = true; } r->deserialize(&in.buf, &in, &bs); });
    if(gotSet) { // fields the set does not select must not change, however the decode ended
        VP after = load(*r); std::vector<bool> sel(n);
        std::function<void(const TP&, size_t, bool)> mark = [&](const TP& tt, size_t at, bool on) { on = on || bs.get(at); sel[at] = on; if(tt->k == KStruct) { size_t o = at + 1; for(auto& k : tt->kids) { mark(k, o, on); o += span(k); } } };
        mark(t, 0, false);
        std::function<void(const VP&, const VP&, size_t)> cmp = [&](const VP& a, const VP& bq, size_t at) { if(a->t->k == KStruct) { size_t o = at + 1; for(size_t i = 0; i < a->kids.size(); i++) { cmp(a->kids[i], bq->kids[i], o); o += span(a->t->kids[i]); } } 
            else if(!sel[at]) { std::string bad = diff(bq, a); CHECK(bad.empty(), "unselected", "field number " << at << " is not selected but changed: " << bad); } };
        cmp(before, after, 0);
    } else { std::string bad = diff(load(*r), before); CHECK(bad.empty(), "untouched", "failed set, yet values changed: " << bad); }
    stillUsable(c, r, again, big, !ok);
}
PBT_TEST(hostile_bitset, 60000, 3000000)
{
    bool big = c.coin(); std::vector<bool> bits(c.u(300)); for(size_t i = 0; i < bits.size(); i++) bits[i] = c.chance(1, 3);
    Enc e(big); e.bitset(bits); Enc e2(big); e2.bitset(std::vector<bool>(c.u(200), true)); Bytes b = c.chance(1, 6) ? noise(c) : corrupt(c, e.b, e2.b);
    c.desc << "bitset bytes " << pbt::hex(b); c.nontrivial(b.size() > 1); Limit lim;
    BitSet bs; std::set<int> m; size_t n = c.u(4); for(size_t i = 0; i < n; i++) { int x = (int)c.u(200); bs.set(x); m.insert(x); }
    In in(b, genCap(c), big, false, &c); in.hostile = true; bool ok = attempt(c, [&] { bs.deserialize(&in.buf, &in); });
    std::set<int> now; for(int i = bs.nextSetBit(0); i >= 0; i = bs.nextSetBit(i + 1)) { now.insert(i); CHECK(now.size() < 100000, "runaway", ""); }
    // whatever it holds now, it must be a proper set
    BitSet ref; for(int i : now) { ref.set(i); CHECK(bs.get(i), "member", "bit " << i); }
    CHECK(bs == ref && ref == bs, "equal", "the set does not equal a set of the same members: " << bs); CHECK_EQ((size_t)bs.cardinality(), now.size(), "cardinality", ""); CHECK_EQ(bs.isEmpty(), now.empty(), "empty", "isEmpty is wrong");
    std::ostringstream s; s << bs; std::ostringstream s2; s2 << ref; CHECK_EQ(s.str(), s2.str(), "print", "");
    Enc e3(big); e3.bitset(bits); In in3(e3.b, 65536, big); bs.deserialize(&in3.buf, &in3); for(size_t i = 0; i < 400; i++) CHECK_EQ(bs.get(i), i < bits.size() && bits[i], "again", "bit " << i << (ok ? "" : " after failure"));
}
PBT_TEST(hostile_status, 60000, 2000000)
{
    bool big = c.coin(); Enc e(big); unsigned ty = (unsigned)c.u(4); 
    auto enc = [&](Enc& e, unsigned ty, const std::string& m, const std::string& d) { if(ty == 0) e.u8(0xff); else { e.u8(ty); e.str(m); e.str(d); } };
    enc(e, ty, genStr(c), genStr(c)); Enc e2(big); enc(e2, 1 + (unsigned)c.u(3), genStr(c), genStr(c));
    Bytes b = c.chance(1, 6) ? noise(c) : corrupt(c, e.b, e2.b); c.desc << "status bytes " << pbt::hex(b); c.nontrivial(b.size() > 1); Limit lim;
    Status s; if(c.coin()) s = Status(Status::STATUSTYPE_ERROR, "old message", "old stack");
    In in(b, genCap(c), big, false, &c); in.hostile = true; bool ok = attempt(c, [&] { s.deserialize(&in.buf, &in); }); (void)ok;
    CHECK(s.getType() >= Status::STATUSTYPE_OK && s.getType() <= Status::STATUSTYPE_FATAL, "status-type", "status type is " << (int)s.getType());
    if(ok) CHECK(s.getType() == (b[0] == 0xff ? 0 : b[0]), "status-meaning", "type " << (int)s.getType() << " decoded from " << (int)b[0]);
    std::ostringstream o; s.dump(o); CHECK(o.str().find(Status::StatusTypeName[s.getType()]) != std::string::npos, "status-print", o.str());
    Status k; k.maximize(s); CHECK_EQ((int)k.getType(), (int)s.getType(), "status-copy", "");
    Enc e3(big); enc(e3, 2, "m", "d"); In in3(e3.b, 65536, big); s.deserialize(&in3.buf, &in3); CHECK(s.getType() == 2 && s.getMessage() == "m" && s.getStackDump() == "d", "status-again", "");
}
PBT_TEST(hostile_string, 40000, 1000000)
{
    bool big = c.coin(); Enc e(big), e2(big); e.str(genStr(c, 60, true, true)); e2.str(genStr(c)); Bytes b = c.chance(1, 6) ? noise(c) : corrupt(c, e.b, e2.b);
    c.desc << "string bytes " << pbt::hex(b); c.nontrivial(b.size() > 1); Limit lim; In in(b, genCap(c), big, false, &c); in.hostile = true; std::string s;
    if(attempt(c, [&] { s = SerializeHelper::deserializeString(&in.buf, &in); })) {
        size_t used = in.consumed(); CHECK(used >= 1 && s.size() <= used - 1, "string", "more characters than bytes"); 
        CHECK(s.empty() || memcmp(s.data(), &b[used - s.size()], s.size()) == 0, "string-bytes", "not the bytes that were sent");
    }
    In in2(b, genCap(c), big, false, &c); in2.hostile = true; size_t z = 0;
    if(attempt(c, [&] { z = SerializeHelper::readSize(&in2.buf, &in2); })) {
        uint32_t v = 0; if(b[0] == 0xfe) for(int k = 0; k < 4; k++) v |= (uint32_t)b[1 + k] << (8 * (big ? 3 - k : k));
        size_t want = b[0] == 0xff ? (size_t)-1 : b[0] == 0xfe ? v : b[0]; CHECK_EQ(z, want, "size", "size form"); CHECK(b[0] != 0xfe || !(v & 0x80000000u), "size-negative", "a negative size was accepted"); CHECK_EQ(in2.consumed(), (size_t)(b[0] == 0xfe ? 5 : 1), "size-consumed", "");
    }
}
PBT_TEST(hostile_plain_buffer, 30000, 1000000)
{
    // the library's own in-memory transport
    bool big = c.coin(); TP t = genType(c, small()); VP v = genValue(c, t, smallV()), again = genValue(c, t, smallV()); Enc e(big); e.value(v); Enc e2(big); e2.value(again); Bytes b = corrupt(c, e.b, e2.b);
    c.desc << show(t) << " buffer " << pbt::hex(b); c.nontrivial(b.size() > 1 && nodes(t) > 1); Limit lim;
    PVFieldPtr r = getPVDataCreate()->createPVField(build(t)); if(c.coin()) store(r, genValue(c, t, smallV()));
    std::vector<char> own(b.begin(), b.end()); ByteBuffer buf(own.empty() ? (char*)"" : &own[0], own.size(), order(big));
    bool ok = attempt(c, [&] { deserializeFromBuffer(r.get(), buf); }); CHECK(buf.getPosition() <= b.size(), "position", "");
    stillUsable(c, r, again, big, !ok);
}
PBT_TEST(deep_nesting, 40, 60)
{
    // nesting limited only by the amount of data.  run in a child, where running out of stack ends only the child
    static const char* kinds[] = { "structure in structure", "union in union", "structure array of structure", "variant in variant" }; static const char* keys[] = { "structure", "union", "structureArray", "variant" }; size_t k = c.u(4), levels = 100000 * (1 + c.u(3));
    c.desc << kinds[k] << " x" << levels; c.nontrivial(); c.label(kinds[k]); Bytes b;
    for(size_t i = 0; i < levels; i++) switch(k) {
        case 0: b.insert(b.end(), { 0x80, 0, 1, 1, 'a' }); break;
        case 1: b.insert(b.end(), { 0x81, 0, 1, 1, 'a' }); break;
        case 2: b.insert(b.end(), { 0x88, 0x80, 0, 1, 1, 'a' }); break;
        default: b.insert(b.end(), { 0x82 }); break;
    }
    b.push_back(0x22);
    pid_t p = fork();
    if(p == 0) {
        struct rlimit r = { 8 << 20, 8 << 20 }; setrlimit(RLIMIT_STACK, &r);
        try { In in(b, 65536, true); in.hostile = true; 
            if(k == 3) { PVUnionPtr u = getPVDataCreate()->createPVVariantUnion(); u->deserialize(&in.buf, &in); } else getFieldCreate()->deserialize(&in.buf, &in); } catch(std::exception&) {}
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    CHECK(WIFEXITED(st) && WEXITSTATUS(st) == 0, (std::string("stack-") + keys[k]).c_str(), "decoding " << b.size() << " bytes of nested type descriptions (" << kinds[k] << ") ran out of stack");
}
