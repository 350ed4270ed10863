// P06: bit sets behave as sets of indices
#include "gen_pvd.hpp"
using namespace gp; using namespace pvd; using pbt::Ctx;
typedef std::set<uint32_t> S;

static bool huge; // sets with members past the sizes which one byte can announce
static uint32_t idx(Ctx& c) {
    if(huge && c.chance(1, 400)) return 131000 + (uint32_t)c.u(3000);
    if(huge && c.chance(1, 6)) { static const uint32_t b[] = { 2023, 2024, 2031, 2032, 2033, 2039, 2040, 2041, 2047, 2048, 4095, 4096 }; return c.coin() ? b[c.u(12)] : (uint32_t)c.u(6000); }
    switch(c.weighted({ 4, 3, 2 })) { case 0: return (uint32_t)c.u(12); case 1: { static const uint32_t b[] = { 63, 64, 65, 62, 127, 128, 129, 191, 192, 0, 1, 255, 256, 257 }; return b[c.u(14)]; } default: return (uint32_t)c.u(400); }
}
static std::string str(const S& s) { std::ostringstream o; o << "{"; bool f = true; for(auto i : s) { o << (f ? "" : ", ") << i; f = false; } o << "}"; return o.str(); }

static void agree(Ctx& c, const BitSet& b, const S& s, const char* after) {
    CHECK_EQ(b.cardinality(), (uint32)s.size(), "cardinality", "after " << after << " want " << str(s) << " have " << b);
    CHECK_EQ(b.isEmpty(), s.empty(), "isEmpty", "after " << after << " want " << str(s));
    uint32_t top = s.empty() ? 0 : *s.rbegin();
    if(!s.empty()) CHECK(b.size() > top, "size", "size " << b.size() << " does not cover the largest member " << top);
    S got; uint32_t guard = 0; for(int32 i = b.nextSetBit(0); i >= 0 && guard < 20000; i = b.nextSetBit(i + 1), guard++) got.insert((uint32_t)i);
    CHECK(got == s, "members", "after " << after << ": members " << str(got) << " expected " << str(s));
    std::ostringstream o; o << b; CHECK_EQ(o.str(), str(s), "print", "printed form");
    for(int k = 0; k < 4; k++) {
        uint32_t i = idx(c);
        CHECK_EQ(b.get(i), s.count(i) != 0, "get", "bit " << i << " of " << str(s));
        auto it = s.lower_bound(i); CHECK_EQ((int64_t)b.nextSetBit(i), it == s.end() ? (int64_t)-1 : (int64_t)*it, "nextSetBit", "from " << i << " in " << str(s));
        uint32_t q = i; while(s.count(q)) q++; CHECK_EQ((int64_t)b.nextClearBit(i), (int64_t)q, "nextClearBit", "from " << i << " in " << str(s));
    }
    // a set built directly must be equal, whatever the history
    BitSet fresh; for(auto i : s) fresh.set(i);
    CHECK(b == fresh && fresh == b && !(b != fresh), "equality", "after " << after << ": not equal to a fresh set with members " << str(s));
    BitSet other(fresh); uint32_t x = idx(c); other.flip(x); CHECK(b != other && !(b == other) && other != b, "inequality", "equal to a set differing in " << x);
}

PBT_TEST(algebra, 120000, 2500000)
{
    huge = c.chance(1, 25);
    enum { N = 3 }; BitSet b[N]; S s[N];
    size_t ops = 1 + c.u(30); c.nontrivial(ops > 4);
    if(c.chance(1, 5)) { uint32_t n = idx(c); b[0] = BitSet(n); c.desc << "BitSet(" << n << ") "; }
    for(size_t k = 0; k < ops; k++) {
        size_t i = c.u(N), j = c.u(N), l = c.u(N); std::ostringstream op;
        switch(c.u(17)) {
        case 0: { uint32_t x = idx(c); b[i].set(x); s[i].insert(x); op << i << ".set(" << x << ")"; break; }
        case 1: { uint32_t x = idx(c); b[i].clear(x); s[i].erase(x); op << i << ".clear(" << x << ")"; break; }
        case 2: { uint32_t x = idx(c); b[i].flip(x); if(!s[i].erase(x)) s[i].insert(x); op << i << ".flip(" << x << ")"; break; }
        case 3: { uint32_t x = idx(c); bool v = c.coin(); b[i].set(x, v); if(v) s[i].insert(x); else s[i].erase(x); op << i << ".set(" << x << "," << v << ")"; break; }
        case 4: if(c.chance(1, 3)) { b[i].clear(); s[i].clear(); op << i << ".clear()"; } break;
        case 5: case 6: { b[i] &= b[j]; S r; for(auto x : s[i]) if(s[j].count(x)) r.insert(x); s[i] = r; op << i << "&=" << j; break; }
        case 7: case 8: { b[i] |= b[j]; S r(s[i]); r.insert(s[j].begin(), s[j].end()); s[i] = r; op << i << "|=" << j; break; }
        case 9: case 10: { b[i] ^= b[j]; S r; for(auto x : s[i]) if(!s[j].count(x)) r.insert(x); for(auto x : s[j]) if(!s[i].count(x)) r.insert(x); s[i] = r; op << i << "^=" << j; break; }
        case 11: case 12: { b[i].or_and(b[j], b[l]); S r(s[i]); for(auto x : s[j]) if(s[l].count(x)) r.insert(x); s[i] = r; op << i << ".or_and(" << j << "," << l << ")"; break; }
        case 13: b[i] = b[j]; s[i] = S(s[j]); op << i << "=" << j; break;
        case 14: b[i].swap(b[j]); if(i != j) std::swap(s[i], s[j]); op << i << ".swap(" << j << ")"; break;
        case 15: { BitSet x(b[j]); b[i] = x; s[i] = S(s[j]); op << i << "=copy " << j; break; }
        default: { uint32_t a = idx(c), n = (uint32_t)c.u(70); for(uint32_t q = a; q < a + n; q++) { b[i].set(q); s[i].insert(q); } op << i << ".fill(" << a << "," << n << ")"; }
        }
        c.desc << op.str() << " ";
        agree(c, b[i], s[i], op.str().c_str());
        if(j != i) agree(c, b[j], s[j], op.str().c_str());
        bool inter = false; for(auto x : s[i]) if(s[j].count(x)) inter = true;
        CHECK_EQ(b[i].logical_and(b[j]), inter, "logical_and", str(s[i]) << " " << str(s[j]));
        CHECK_EQ(b[i].logical_or(b[j]), !s[i].empty() || !s[j].empty(), "logical_or", str(s[i]) << " " << str(s[j]));
        CHECK_EQ(b[i] == b[j], s[i] == s[j], "equality2", str(s[i]) << " " << str(s[j]));
    }
}
// long runs of members which end at, or next to, the end of a word
PBT_TEST(runs, 3000, 200000)
{
    huge = false; uint32_t words = 1 + (uint32_t)c.u(c.chance(1, 8) ? 80 : 20), end = words * 64; if(c.chance(1, 4)) end += (uint32_t)c.u(3) - 1; uint32_t begin = c.coin() ? 0 : (uint32_t)c.u(end);
    BitSet b; S s; for(uint32_t i = begin; i < end; i++) { b.set(i); s.insert(i); } c.desc << "[" << begin << "," << end << ")"; c.nontrivial(end > 64);
    if(c.coin()) { uint32_t h = begin + (uint32_t)c.u(end - begin); b.clear(h); s.erase(h); c.desc << " without " << h; }
    agree(c, b, s, "run");
    for(int k = 0; k < 4; k++) { uint32_t i = k ? (uint32_t)c.u(end + 70) : begin; uint32_t q = i; while(s.count(q)) q++; CHECK_EQ((int64_t)b.nextClearBit(i), (int64_t)q, "nextClearBit", "from " << i); auto it = s.lower_bound(i); CHECK_EQ((int64_t)b.nextSetBit(i), it == s.end() ? (int64_t)-1 : (int64_t)*it, "nextSetBit", "from " << i); CHECK_EQ(b.get(i), s.count(i) != 0, "get", i); }
    BitSet other; S os; uint32_t ob = (uint32_t)c.u(end), oe = ob + (uint32_t)c.u(end + 64 - ob); for(uint32_t i = ob; i < oe; i++) { other.set(i); os.insert(i); } c.desc << " and [" << ob << "," << oe << ")"; BitSet r(b); S rs;
    switch(c.u(4)) { case 0: r &= other; for(auto x : s) if(os.count(x)) rs.insert(x); break; case 1: r |= other; rs = s; rs.insert(os.begin(), os.end()); break; case 2: r ^= other; for(auto x : s) if(!os.count(x)) rs.insert(x); for(auto x : os) if(!s.count(x)) rs.insert(x); break; default: r.clear(); r.or_and(b, other); for(auto x : s) if(os.count(x)) rs.insert(x); }
    agree(c, r, rs, "combination of runs");
}
PBT_TEST(list_ctor, 5000, 50000)
{
    huge = c.chance(1, 25);
    S s; std::vector<uint32_t> l; size_t n = c.u(5); for(size_t i = 0; i < n; i++) { l.push_back(idx(c)); s.insert(l.back()); }
    l.resize(5, l.empty() ? 0 : l[0]); c.nontrivial(n > 1);
    if(n == 0) { BitSet b({}); agree(c, b, s, "empty list"); return; }
    BitSet b({ l[0], l[1], l[2], l[3], l[4] }); s.insert(l.begin(), l.end()); c.desc << str(s); agree(c, b, s, "initializer list");
    BitSetPtr p = BitSet::create(l[0]); agree(c, *p, S(), "create"); 
}
PBT_TEST(wire, 120000, 2500000)
{
    huge = c.chance(1, 25);
    BitSet b; S s; size_t n = c.u(20); for(size_t i = 0; i < n; i++) { uint32_t x = idx(c); b.set(x); s.insert(x); }
    if(c.chance(1, 3)) { uint32_t x = (uint32_t)(64 * c.u(7) + c.u(64)); for(uint32_t q = x; q < x + 64 && q < 500; q++) { b.set(q); s.insert(q); } }
    if(huge && c.chance(1, 20)) { uint32_t end = (uint32_t)genLargeN(c, 100000), step = 20 + (uint32_t)c.u(100); c.label("many words"); for(uint32_t q = (uint32_t)c.u(64); q < end; q += 1 + (uint32_t)c.u(step)) { b.set(q); s.insert(q); } }
    size_t er = c.u(6); for(size_t i = 0; i < er && !s.empty(); i++) { b.clear(*s.rbegin()); s.erase(*s.rbegin()); } // leave a storage history
    bool big = c.coin(); size_t cap = c.coin() ? 16 + c.u(16) : 16 + c.u(150); c.desc << str(s) << (big ? " big" : " little") << " buffer " << cap; c.nontrivial(s.size() > 2); c.cover(!s.empty() && *s.rbegin() >= 64, "several words");
    Out out(cap, big); size_t lead = c.u(cap); for(size_t i = 0; i < lead; i++) out.buf.putByte(1);
    b.serialize(&out.buf, &out); std::vector<uint8_t> bytes = out.finish(); bytes.erase(bytes.begin(), bytes.begin() + lead); size_t len = bytes.size(); bytes.insert(bytes.end(), c.u(3), 0x5a);
    BitSet r; size_t m = c.u(5); for(size_t i = 0; i < m; i++) r.set(idx(c));
    In in(bytes, cap, big, false, &c); r.deserialize(&in.buf, &in);
    CHECK_EQ(in.consumed(), len, "consumed", pbt::hex(bytes)); agree(c, r, s, "wire"); agree(c, b, s, "serialize");
    if(!s.empty()) { // same through byte vector; trailing zero bytes are legal
        std::vector<uint8_t> v; serializeToVector(&b, order(big), v); v.resize(v.size()); BitSet q; q.set(7); deserializeFromVector(&q, order(big), v); agree(c, q, s, "byte vector");
        size_t nb = (*s.rbegin() / 8 + 1) + c.u(20); Enc e(big); e.size(nb); size_t words = nb / 8; 
        auto byteAt = [&](size_t i) { unsigned x = 0; for(size_t k = 0; k < 8; k++) if(s.count((uint32_t)(i * 8 + k))) x |= 1u << k; return x; };
        for(size_t w = 0; w < words; w++) { uint64_t x = 0; for(size_t i = 0; i < 8; i++) x |= (uint64_t)byteAt(w * 8 + i) << (8 * i); e.num(x, 8); }
        for(size_t i = words * 8; i < nb; i++) e.u8(byteAt(i));
        In in2(e.b, 16 + c.u(200), big, false, &c); BitSet z; z.deserialize(&in2.buf, &in2); agree(c, z, s, "wire with extra zero bytes"); CHECK_EQ(in2.left(), (size_t)0, "left", "");
    }
}
