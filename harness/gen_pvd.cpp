#include "gen_pvd.hpp"
#include <algorithm>
#include <functional>
#include <math.h>
#include <epicsEndian.h>

namespace gp {
using namespace pvd;
using std::string; using std::vector;

static std::shared_ptr<T> nt(Kind k) { auto t = std::make_shared<T>(); t->k = k; return t; }
TP mkScalar(ScalarType st) { auto t = nt(KScalar); t->st = st; return t; }
TP mkBString(size_t n) { auto t = nt(KBString); t->st = pvString; t->bound = n; return t; }
TP mkSArray(ScalarType st, int cls, size_t bound) { auto t = nt(KSArray); t->st = st; t->cls = cls; t->bound = cls ? bound : 0; return t; }
TP mkStruct(const vector<string>& n, const vector<TP>& k, const string& id) { auto t = nt(KStruct); t->id = id; t->names = n; t->kids = k; return t; }
TP mkUnion(const vector<string>& n, const vector<TP>& k, const string& id) { auto t = nt(KUnion); t->id = id; t->names = n; t->kids = k; return t; }
TP mkKind(Kind k) { auto t = nt(k); t->id = "any"; return t; }
TP mkArr(Kind k, TP e) { auto t = nt(k); t->kids.push_back(e); return t; }

ScalarType genScalarType(Ctx& c) {
    // simplest first: int, then the rest
    static const ScalarType all[] = { pvInt, pvBoolean, pvByte, pvShort, pvLong, pvUByte, pvUShort, pvUInt, pvULong, pvFloat, pvDouble, pvString };
    return all[c.u(12)];
}
string genName(Ctx& c, const std::set<string>& used) {
    static const char* pool[] = { "a", "b", "value", "x1", "alarm", "timeStamp", "A", "_u", "severity", "index", "choices", "longFieldName_with_99_digits", "y", "z", "record" };
    string n = pool[c.u(sizeof pool / sizeof *pool)];
    if(c.chance(1, 80)) n = string(c.oneOf({ (size_t)40, (size_t)252, (size_t)253, (size_t)254, (size_t)255, (size_t)256, (size_t)300 }), 'n');
    string b = n; int i = 2;
    while(used.count(n)) n = b + std::to_string(i++);
    return n;
}
static string genId(Ctx& c, const char* dflt) {
    switch(c.weighted({ 12, 2, 2, 2, 2, 3 })) {
    case 0: return dflt;
    case 5: { // words with a meaning elsewhere, and near to them
        static const char* words[] = { "structure", "union", "any", "structures", "union2", "anything", "struct", "unio", "an", "Structure", "structure ", "structure[]", "any[]", "union[]", "int", "string(3)", "s", " ", "null" };
        return words[c.u(sizeof words / sizeof *words)]; }
    case 1: return "epics:nt/NTScalar:1.0";
    case 2: return "my type id";
    case 3: return genStr(c, 10, true, false).empty() ? "q" : string("id") + std::to_string(c.u(300));
    default: return string(c.oneOf({ (size_t)1, (size_t)252, (size_t)253, (size_t)254, (size_t)255, (size_t)256 }), 'i');
    }
}
static size_t genBound(Ctx& c) { return c.oneOf({ (size_t)3, (size_t)1, (size_t)2, (size_t)5, (size_t)8, (size_t)253, (size_t)254, (size_t)255, (size_t)70000 }); }
static size_t genFixed(Ctx& c) { return c.oneOf({ (size_t)2, (size_t)1, (size_t)3, (size_t)4, (size_t)7, (size_t)254, (size_t)300 }); }

static TP gen(Ctx& c, const TypeOpts& o, int depth, int& budget);
static TP genCompound(Ctx& c, const TypeOpts& o, int depth, int& budget, Kind k) {
    auto t = nt(k);
    t->id = o.ids ? genId(c, k == KStruct ? "structure" : "union") : (k == KStruct ? "structure" : "union");
    size_t n;
    if(k == KStruct) { n = c.weighted({ o.emptyStructs ? 1u : 0u, 4, 5, 4, 3, 2 }); }
    else n = 1 + c.weighted({ 3, 4, 3, 2 });
    if(o.wide && k == KUnion && depth >= o.depth - 1 && c.chance(1, 60)) {
        n = c.coin() ? 250 + c.u(10) : 20 + c.u(80);
        for(size_t i = 0; i < n; i++) { t->names.push_back("u" + std::to_string(i)); int b2 = 2; t->kids.push_back(c.chance(1, 8) ? gen(c, o, 1, b2) : mkScalar(genScalarType(c))); }
        budget -= (int)n; return t;
    }
    if(o.wide && k == KStruct && depth >= o.depth && c.chance(1, 12)) { // wide
        n = c.chance(1, 25) ? 250 + c.u(10) : 20 + c.u(80); std::set<string> used; // and more than one byte can count
        for(size_t i = 0; i < n; i++) { t->names.push_back("f" + std::to_string(i)); 
            int b2 = 2; t->kids.push_back(c.chance(1, 8) ? gen(c, o, 1, b2) : mkScalar(genScalarType(c))); }
        budget -= (int)n; return t;
    }
    std::set<string> used;
    for(size_t i = 0; i < n; i++) {
        string nm = genName(c, used); used.insert(nm); t->names.push_back(nm);
        t->kids.push_back(gen(c, o, depth - 1, budget));
    }
    return t;
}
static TP gen(Ctx& c, const TypeOpts& o, int depth, int& budget) {
    budget--;
    bool leaf = depth <= 0 || budget <= 0;
    unsigned cmp = leaf ? 0 : 1;
    switch(c.weighted({ 8, o.arrays ? 4u : 0u, o.bstring ? 1u : 0u, 5 * cmp, o.unions ? 2 * cmp : 0, o.variants ? 1u : 0u,
                        o.compoundArrays && o.arrays ? 2 * cmp : 0, o.compoundArrays && o.unions && o.arrays ? 1 * cmp : 0, o.compoundArrays && o.variants && o.arrays ? 1u : 0u })) {
    case 0: return mkScalar(genScalarType(c));
    case 1: {
        ScalarType st = genScalarType(c);
        switch(c.weighted({ 6, o.bounded ? 2u : 0u, o.fixed ? 2u : 0u })) {
        case 1: return mkSArray(st, 1, genBound(c));
        case 2: return mkSArray(st, 2, genFixed(c));
        default: return mkSArray(st);
        }
    }
    case 2: return mkBString(c.oneOf({ (size_t)8, (size_t)1, (size_t)40, (size_t)253, (size_t)254, (size_t)100000 }));
    case 3: return genCompound(c, o, depth, budget, KStruct);
    case 4: return genCompound(c, o, depth, budget, KUnion);
    case 5: return mkKind(KVariant);
    case 6: return mkArr(KStructArr, genCompound(c, o, depth - 1, budget, KStruct));
    case 7: return mkArr(KUnionArr, genCompound(c, o, depth - 1, budget, KUnion));
    default: return mkKind(KVariantArr);
    }
}
TP genType(Ctx& c, const TypeOpts& o) { int b = o.nodes; if(o.depth > 1 && c.chance(1, 2)) return genCompound(c, o, o.depth, b, KStruct); return gen(c, o, o.depth, b); }
TP genStruct(Ctx& c, const TypeOpts& o) { int b = o.nodes; return genCompound(c, o, o.depth, b, KStruct); }
TP genUnion(Ctx& c, const TypeOpts& o) { int b = o.nodes; return genCompound(c, o, o.depth, b, KUnion); }

size_t width(ScalarType st) {
    switch(st) {
    case pvBoolean: case pvByte: case pvUByte: return 1;
    case pvShort: case pvUShort: return 2;
    case pvInt: case pvUInt: case pvFloat: return 4;
    case pvLong: case pvULong: case pvDouble: return 8;
    default: return 0;
    }
}
template<class F, class I> static uint64_t fbits(F f) { I i; memcpy(&i, &f, sizeof i); return i; }
uint64_t genNum(Ctx& c, ScalarType st, bool nan) {
    if(st == pvBoolean) return c.draw(2);
    size_t w = width(st);
    uint64_t mask = w == 8 ? ~0ull : ((1ull << (8 * w)) - 1);
    if(st == pvFloat || st == pvDouble) {
        double d; 
        switch(c.weighted({ 3, 3, 2, 2, nan ? 1u : 0u })) {
        case 0: d = (double)c.range(0, 20); break;
        case 1: d = (double)c.range(-1000000, 1000000) / 64.0; break;
        case 2: { static const double sp[] = { -0.0, 1e300, -1e-300, 5e-324, 3.4028234663852886e38, 1.17549435e-38, 9007199254740993.0, 0.1, -1.5, 2147483648.0, 1.7976931348623157e308, 1e-45 };
                  d = sp[c.u(12)]; break; }
        case 3: { uint64_t b = c.bits(); 
                  if(st == pvFloat) { uint32_t x = (uint32_t)b; if(((x >> 23) & 255) == 255) x &= ~(1u << 23); return x; }
                  if(((b >> 52) & 2047) == 2047) b &= ~(1ull << 52); return b; }
        default: { 
            if(st == pvFloat) { static const uint32_t sp[] = { 0x7fc00000, 0x7f800000, 0xff800000, 0xffc00001, 0x7fc12345 }; return sp[c.u(5)]; }
            static const uint64_t sp[] = { 0x7ff8000000000000ull, 0x7ff0000000000000ull, 0xfff0000000000000ull, 0xfff8000000000001ull, 0x7ff8deadbeef0001ull }; return sp[c.u(5)]; }
        }
        if(st == pvFloat) { if(fabs(d) > 3.5e38) d = 3e38; return fbits<float, uint32_t>((float)d); }
        return fbits<double, uint64_t>(d);
    }
    switch(c.weighted({ 4, 2, 3, 2 })) {
    case 0: return c.draw(20);
    case 1: return (uint64_t)(-(int64_t)c.draw(20)) & mask;
    case 2: { // boundaries of every width
        static const int sh[] = { 7, 8, 15, 16, 31, 32, 53, 63 };
        uint64_t b = 1ull << sh[c.u(8)]; return (b + (uint64_t)c.range(-2, 2)) & mask; }
    default: return c.bits() & mask;
    }
}
string genStr(Ctx& c, size_t maxLen, bool anyBytes, bool big) {
    size_t n;
    if(big && c.chance(1, 25)) n = c.oneOf({ (size_t)252, (size_t)253, (size_t)254, (size_t)255, (size_t)256, (size_t)1000, (size_t)20000 });
    else n = c.u(maxLen + 1);
    if(n > 60) { char b = (char)('a' + c.u(26)); string s(n, b); for(size_t i = 0; i < n; i += 7) s[i] = (char)('A' + (i / 7) % 26); return s; }
    string s; 
    int mode = (int)c.weighted({ 6, 2, anyBytes ? 2u : 0u, 1 });
    for(size_t i = 0; i < n; i++) {
        switch(mode) {
        case 0: s += (char)('a' + c.u(26)); break;
        case 1: s += (char)(32 + c.u(95)); break;
        case 2: s += (char)c.u(256); break;
        default: { static const char sp[] = "\"\\,[]{}\n\t 0\r:;'/x%"; s += sp[c.u(sizeof sp - 1)]; }
        }
    }
    return s;
}

static size_t genLen(Ctx& c, const TP& t, const ValOpts& o) {
    size_t n = c.u(o.maxLen + 1);
    if(o.big && t->k == KSArray && c.chance(1, 20)) n = c.oneOf({ (size_t)252, (size_t)253, (size_t)254, (size_t)255, (size_t)256, (size_t)513, (size_t)3000 });
    if(t->cls == 1) n = std::min(n, t->bound);
    if(t->cls == 2) n = (!o.fixedFull && c.chance(1, 4)) ? 0 : t->bound;
    return n;
}
VP genValue(Ctx& c, TP t, const ValOpts& o) {
    VP v = std::make_shared<V>(); v->t = t;
    switch(t->k) {
    case KScalar: if(t->st == pvString) v->str = genStr(c, 20, o.anyBytes, o.big); else v->num = genNum(c, t->st, o.nan); break;
    case KBString: v->str = genStr(c, std::min<size_t>(20, t->bound), o.anyBytes, o.big); if(v->str.size() > t->bound) v->str.resize(t->bound); break;
    case KSArray: {
        size_t n = genLen(c, t, o);
        if(t->st == pvString) { 
            if(n > 20) { string s = genStr(c, 3, o.anyBytes, false); for(size_t i = 0; i < n; i++) v->strs.push_back(i % 5 ? s : std::to_string(i)); }
            else for(size_t i = 0; i < n; i++) v->strs.push_back(genStr(c, 8, o.anyBytes, o.big)); }
        else if(n > 20) { uint64_t s = c.bits(); uint64_t mask = width(t->st) == 8 ? ~0ull : ((1ull << (8 * width(t->st))) - 1); 
            bool fl = t->st == pvFloat || t->st == pvDouble;
            for(size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; 
                if(fl) { double d = (double)(int64_t)(s >> 40) / 8; v->nums.push_back(t->st == pvFloat ? fbits<float, uint32_t>((float)d) : fbits<double, uint64_t>(d)); }
                else v->nums.push_back(t->st == pvBoolean ? (s >> 40) & 1 : (s >> 20) & mask); } }
        else for(size_t i = 0; i < n; i++) v->nums.push_back(genNum(c, t->st, o.nan));
        break; }
    case KStruct: for(auto& k : t->kids) v->kids.push_back(genValue(c, k, o)); break;
    case KUnion: 
        if(o.nulls && c.chance(1, 4)) { v->sel = -1; v->kids.push_back(VP()); }
        else { v->sel = (int)c.u(t->kids.size()); if(t->kids.size() > 200 && c.coin()) v->sel = (int)(t->kids.size() - 1 - c.u(8)); ValOpts o2(o); o2.big = false; v->kids.push_back(genValue(c, t->kids[v->sel], o2)); }
        break;
    case KVariant:
        if(o.variantDepth <= 0 || c.chance(1, 3)) v->kids.push_back(VP());
        else { TypeOpts to; to.depth = 1; to.nodes = 4; to.wide = false; to.variants = o.variantDepth > 1; ValOpts o2(o); o2.variantDepth--; o2.big = false;
            // values must be structures or scalars/arrays: any type
            v->kids.push_back(genValue(c, genType(c, to), o2)); }
        break;
    case KStructArr: case KUnionArr: case KVariantArr: {
        size_t n = c.u(4); ValOpts o2(o); o2.big = false; o2.maxLen = 3; if(o2.variantDepth > 1) o2.variantDepth = 1;
        if(o.big && c.chance(1, 60)) n = 255;
        for(size_t i = 0; i < n; i++) {
            if(o.nulls && (c.chance(1, 4) || (n > 4 && i % 50 > 1))) v->kids.push_back(VP());
            else v->kids.push_back(genValue(c, t->k == KVariantArr ? mkKind(KVariant) : t->kids[0], o2));
        }
        break; }
    }
    return v;
}
size_t genLargeN(Ctx& c, size_t maxN) {
    size_t n; if(c.coin()) { n = ((size_t)1 << (6 + c.u(12))) + c.u(4); if(n > 2) n -= 2; } else { n = (size_t)64 << c.u(12); n += c.u((uint32_t)n); }
    while(n > maxN) n = n * 2 / 5 + c.u(3); return n ? n : 1; }
Large genLarge(Ctx& c, size_t maxN) { return genLarge(c, (int)c.u(LKinds), maxN); }
Large genLarge(Ctx& c, int kind, size_t maxN) {
    Large l; bool heavy = kind >= LStrings && kind != LNames; l.n = genLargeN(c, kind == LDeep ? std::min<size_t>(maxN, 150) : kind == LWide || kind == LUnion ? std::min<size_t>(maxN, 2000) : heavy ? std::min<size_t>(maxN, 3000) : maxN);
    const size_t n = l.n; auto mix = [&c](uint64_t& s) { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }; uint64_t s = c.bits(); ValOpts vo; vo.big = false; vo.nan = false; vo.anyBytes = false;
    // now and then far from the start
    size_t at = c.coin() ? n - 1 - std::min<size_t>(n - 1, c.u(3)) : c.u((uint32_t)n);
    auto scalar = [&](const TP& t) { VP v = std::make_shared<V>(); v->t = t; if(t->st == pvString) v->str = std::to_string(mix(s)); else { uint64_t r = mix(s); switch(t->st) { case pvBoolean: v->num = r & 1; break; case pvFloat: v->num = fbits<float, uint32_t>((float)(r & 0xffff) / 8); break; case pvDouble: v->num = fbits<double, uint64_t>((double)r / 8); break; default: v->num = width(t->st) == 8 ? r : r & ((1ull << (8 * width(t->st))) - 1); } } return v; };
    auto change = [](const VP& v) { if(v->t->st == pvString) v->str += "!"; else if(v->t->st == pvFloat) v->num ^= 1 << 16; else if(v->t->st == pvDouble) v->num ^= 1ull << 40; else v->num ^= 1; };
    TP elem; VP big = std::make_shared<V>(); 
    switch(kind) {
    case LString: elem = mkScalar(pvString); for(size_t i = 0; i < n; i++) big->str += (char)('a' + mix(s) % 26); l.what = "string"; l.touch = [at](VP& v) { char& x = v->kids[1]->str[at]; x = x == 'a' ? 'b' : 'a'; }; break;
    case LNumbers: { ScalarType st; do st = genScalarType(c); while(st == pvString); elem = mkSArray(st, (int)c.weighted({ 4, 1, 1 }), n); TP one = mkScalar(st); for(size_t i = 0; i < n; i++) big->nums.push_back(scalar(one)->num); l.what = "numbers"; l.touch = [at](VP& v) { v->kids[1]->nums[at] ^= 1; }; break; }
    case LStrings: elem = mkSArray(pvString, (int)c.weighted({ 4, 1, 1 }), n); for(size_t i = 0; i < n; i++) big->strs.push_back(std::to_string(mix(s))); l.what = "strings"; l.touch = [at](VP& v) { v->kids[1]->strs[at] += "!"; }; break;
    case LStructs: { TP e = mkStruct({"x", "y"}, {mkScalar(genScalarType(c)), mkScalar(genScalarType(c))}); elem = mkArr(KStructArr, e); for(size_t i = 0; i < n; i++) { VP x = std::make_shared<V>(); x->t = e; x->kids = { scalar(e->kids[0]), scalar(e->kids[1]) }; big->kids.push_back(x); } l.what = "structures"; l.touch = [at, change](VP& v) { change(v->kids[1]->kids[at]->kids[1]); }; break; }
    case LUnions: { TP e = mkUnion({"x", "y"}, {mkScalar(genScalarType(c)), mkScalar(genScalarType(c))}); elem = mkArr(KUnionArr, e); for(size_t i = 0; i < n; i++) { VP x = std::make_shared<V>(); x->t = e; x->sel = (int)(mix(s) & 1); x->kids = { scalar(e->kids[x->sel]) }; big->kids.push_back(x); } l.what = "unions"; l.touch = [at, change](VP& v) { change(v->kids[1]->kids[at]->kids[0]); }; break; }
    case LVariants: { elem = mkKind(KVariantArr); TP k[2] = { mkScalar(genScalarType(c)), mkScalar(genScalarType(c)) }; for(size_t i = 0; i < n; i++) { VP x = std::make_shared<V>(); x->t = mkKind(KVariant); x->kids = { scalar(k[mix(s) & 1]) }; big->kids.push_back(x); } l.what = "variants"; l.touch = [at, change](VP& v) { change(v->kids[1]->kids[at]->kids[0]); }; break; }
    case LWide: { std::vector<std::string> nm; std::vector<TP> k; size_t i = 0; for(; i < n; i++) { nm.push_back("f" + std::to_string(i)); k.push_back(mkScalar((ScalarType)(mix(s) % (pvString + 1)))); } if(c.coin()) { size_t w = c.u((uint32_t)n); k[w] = mkStruct({"a", "b"}, {mkScalar(pvInt), mkScalar(pvString)}); } elem = mkStruct(nm, k); for(auto& t : k) { if(t->k == KStruct) { VP x = std::make_shared<V>(); x->t = t; x->kids = { scalar(t->kids[0]), scalar(t->kids[1]) }; big->kids.push_back(x); } else big->kids.push_back(scalar(t)); } l.what = "members"; l.touch = [at, change](VP& v) { VP x = v->kids[1]->kids[at]; change(x->t->k == KStruct ? x->kids[1] : x); }; break; }
    case LUnion: { std::vector<std::string> nm; std::vector<TP> k; for(size_t i = 0; i < n; i++) { nm.push_back("u" + std::to_string(i)); k.push_back(mkScalar((ScalarType)(mix(s) % (pvString + 1)))); } elem = mkUnion(nm, k); big->sel = (int)at; big->kids = { scalar(k[at]) }; l.what = "choices"; size_t other = at > 127 && c.coin() ? at - 128 : at ? at - 1 : n - 1; if(other == at) l.touch = [change](VP& v) { change(v->kids[1]->kids[0]); }; else { VP o = scalar(k[other]); l.touch = [o, other](VP& v) { v->kids[1]->sel = (int)other; v->kids[1]->kids[0] = clone(o); }; } break; }
    case LDeep: { TP in = mkScalar(genScalarType(c)); big = scalar(in); for(size_t i = 1; i < n; i++) { TP o = c.chance(1, 3) ? mkStruct({"d", "z"}, {in, mkScalar(pvInt)}) : mkStruct({"d"}, {in}); VP x = std::make_shared<V>(); x->t = o; x->kids.push_back(big); if(o->kids.size() > 1) x->kids.push_back(scalar(o->kids[1])); big = x; in = o; } elem = in; l.what = "levels"; l.touch = [change](VP& v) { VP x = v->kids[1]; while(x->t->k == KStruct) x = x->kids[0]; change(x); }; break; }
    default: { std::string nm(n, 'n'), id(n, 'i'); for(size_t i = 0; i < n; i++) { nm[i] = (char)('a' + mix(s) % 26); id[i] = (char)('A' + mix(s) % 26); } std::string n2(nm), n3(nm); n2[at] = nm[at] == 'q' ? 'r' : 'q'; n3 += "x"; elem = mkStruct({nm, n2, n3}, {mkScalar(pvInt), mkScalar(pvString), mkScalar(pvInt)}, c.coin() ? id : std::string("structure")); big->kids = { scalar(elem->kids[0]), scalar(elem->kids[1]), scalar(elem->kids[2]) }; l.what = "characters in names"; l.touch = [change](VP& v) { change(v->kids[1]->kids[2]); }; break; }
    }
    big->t = elem; l.t = mkStruct({"first", "large", "last"}, {mkScalar(pvInt), elem, mkScalar(pvString)}); l.v = std::make_shared<V>(); l.v->t = l.t; l.v->kids = { scalar(l.t->kids[0]), big, scalar(l.t->kids[2]) };
    c.label(l.what); c.desc << l.n << " " << l.what; return l; }
VP defaultValue(TP t) {
    VP v = std::make_shared<V>(); v->t = t;
    if(t->k == KStruct) for(auto& k : t->kids) v->kids.push_back(defaultValue(k));
    if(t->k == KUnion || t->k == KVariant) v->kids.push_back(VP());
    return v;
}
VP clone(const VP& v) {
    if(!v) return v;
    VP o = std::make_shared<V>(*v); for(auto& k : o->kids) k = clone(k); return o;
}

string show(const TP& t) {
    if(!t) return "null";
    std::ostringstream o;
    switch(t->k) {
    case KScalar: o << ScalarTypeFunc::name(t->st); break;
    case KBString: o << "string(" << t->bound << ")"; break;
    case KSArray: o << ScalarTypeFunc::name(t->st) << "["; if(t->cls == 1) o << "<=" << t->bound; if(t->cls == 2) o << "=" << t->bound; o << "]"; break;
    case KStruct: case KUnion:
        o << (t->k == KStruct ? "struct" : "union"); if(t->id != (t->k == KStruct ? "structure" : "union")) o << "'" << (t->id.size() > 30 ? t->id.substr(0, 5) + "..(" + std::to_string(t->id.size()) + ")" : t->id) << "'";
        o << "{"; for(size_t i = 0; i < t->kids.size(); i++) o << (i ? ", " : "") << t->names[i] << ":" << show(t->kids[i]); o << "}"; break;
    case KVariant: o << "any"; break;
    case KVariantArr: o << "any[]"; break;
    case KStructArr: case KUnionArr: o << show(t->kids[0]) << "[]"; break;
    }
    return o.str();
}
static void showNum(std::ostream& o, ScalarType st, uint64_t n) {
    switch(st) {
    case pvBoolean: o << (n ? "true" : "false"); break;
    case pvByte: o << (int)(int8_t)n; break; case pvShort: o << (int16_t)n; break; case pvInt: o << (int32_t)n; break; case pvLong: o << (int64_t)n; break;
    case pvUByte: o << (unsigned)(uint8_t)n; break; case pvUShort: o << (uint16_t)n; break; case pvUInt: o << (uint32_t)n; break; case pvULong: o << n; break;
    case pvFloat: { uint32_t b = (uint32_t)n; float f; memcpy(&f, &b, 4); char s[60]; snprintf(s, sizeof s, "%.9g", f); o << s; break; }
    case pvDouble: { double f; memcpy(&f, &n, 8); char s[60]; snprintf(s, sizeof s, "%.17g", f); o << s; break; }
    default: break;
    }
}
string show(const VP& v) {
    if(!v) return "null";
    std::ostringstream o; const T& t = *v->t;
    switch(t.k) {
    case KScalar: if(t.st == pvString) o << pbt::quote(v->str); else showNum(o, t.st, v->num); break;
    case KBString: o << pbt::quote(v->str); break;
    case KSArray: {
        size_t n = t.st == pvString ? v->strs.size() : v->nums.size(); o << "[";
        for(size_t i = 0; i < n; i++) { if(i) o << ","; if(i == 12 && n > 16) { o << "..(" << n << ")"; break; } if(t.st == pvString) o << pbt::quote(v->strs[i]); else showNum(o, t.st, v->nums[i]); }
        o << "]"; break; }
    case KStruct: o << "{"; for(size_t i = 0; i < v->kids.size(); i++) { o << (i ? ", " : "") << t.names[i] << "=" << show(v->kids[i]); if(i == 30 && v->kids.size() > 32) { o << "..."; break; } } o << "}"; break;
    case KUnion: if(v->sel < 0) o << "(none)"; else o << "(" << t.names[v->sel] << ": " << show(v->kids[0]) << ")"; break;
    case KVariant: if(!v->kids[0]) o << "(none)"; else o << "(" << show(v->kids[0]->t) << ": " << show(v->kids[0]) << ")"; break;
    default: o << "["; for(size_t i = 0; i < v->kids.size(); i++) { o << (i ? ", " : "") << show(v->kids[i]); if(i == 10 && v->kids.size() > 12) { o << "..(" << v->kids.size() << ")"; break; } } o << "]";
    }
    return o.str();
}
bool eq(const TP& a, const TP& b) {
    if(a == b) return true; if(!a || !b) return false;
    if(a->k != b->k) return false;
    switch(a->k) {
    case KScalar: return a->st == b->st;
    case KBString: return a->bound == b->bound;
    case KSArray: return a->st == b->st && a->cls == b->cls && a->bound == b->bound;
    case KVariant: case KVariantArr: return true;
    default: break;
    }
    if(a->k == KStruct || a->k == KUnion) if(a->id != b->id || a->names != b->names) return false;
    if(a->kids.size() != b->kids.size()) return false;
    for(size_t i = 0; i < a->kids.size(); i++) if(!eq(a->kids[i], b->kids[i])) return false;
    return true;
}
string diff(const VP& a, const VP& b, const string& path) {
    if(!a && !b) return "";
    if(!a || !b) return path + ": " + show(a) + " vs " + show(b);
    if(!eq(a->t, b->t)) return path + ": type " + show(a->t) + " vs " + show(b->t);
    const T& t = *a->t;
    if(a->num != b->num || a->str != b->str || a->nums != b->nums || a->strs != b->strs || a->sel != b->sel || a->kids.size() != b->kids.size()) {
        string extra;
        if(a->nums != b->nums && a->nums.size() == b->nums.size()) for(size_t i = 0; i < a->nums.size(); i++) if(a->nums[i] != b->nums[i]) { extra = " (element " + std::to_string(i) + ")"; break; }
        return path + ": " + show(a) + " vs " + show(b) + extra;
    }
    for(size_t i = 0; i < a->kids.size(); i++) {
        string d = diff(a->kids[i], b->kids[i], path + (t.k == KStruct ? "." + t.names[i] : "[" + std::to_string(i) + "]"));
        if(!d.empty()) return d;
    }
    return "";
}
bool eq(const VP& a, const VP& b) { return diff(a, b).empty(); }
int nodes(const TP& t) { int n = 1; for(auto& k : t->kids) n += nodes(k); return n; }
int depth(const TP& t) { int n = 0; for(auto& k : t->kids) n = std::max(n, depth(k)); return n + 1; }
void features(Ctx& c, const TP& t) {
    static const char* kn[] = { "scalar", "bounded string", "scalar array", "structure", "union", "variant", "structure array", "union array", "variant array" };
    std::set<string> seen; vector<TP> st(1, t);
    while(!st.empty()) { TP x = st.back(); st.pop_back(); string s = kn[x->k]; if(x->kids.size() > 253) seen.insert("a " + s + " of more than 253 members"); if(x->k == KSArray && x->cls) s += x->cls == 1 ? " bounded" : " fixed"; seen.insert(s); for(auto& k : x->kids) st.push_back(k); }
    for(auto& s : seen) c.label("has " + s);
}

// ---------------------------------------------------------------- bridges
FieldConstPtr build(const TP& t) {
    FieldCreatePtr fc = getFieldCreate();
    switch(t->k) {
    case KScalar: return fc->createScalar(t->st);
    case KBString: return fc->createBoundedString(t->bound);
    case KSArray: return t->cls == 0 ? fc->createScalarArray(t->st) : t->cls == 1 ? fc->createBoundedScalarArray(t->st, t->bound) : fc->createFixedScalarArray(t->st, t->bound);
    case KVariant: return fc->createVariantUnion();
    case KVariantArr: return fc->createVariantUnionArray();
    case KStruct: case KUnion: {
        StringArray n(t->names.begin(), t->names.end()); FieldConstPtrArray f; for(auto& k : t->kids) f.push_back(build(k));
        if(t->k == KStruct) return t->id == "structure" ? fc->createStructure(n, f) : fc->createStructure(t->id, n, f);
        return t->id == "union" ? fc->createUnion(n, f) : fc->createUnion(t->id, n, f); }
    case KStructArr: return fc->createStructureArray(std::tr1::static_pointer_cast<const Structure>(build(t->kids[0])));
    case KUnionArr: return fc->createUnionArray(std::tr1::static_pointer_cast<const Union>(build(t->kids[0])));
    }
    throw std::logic_error("build");
}
FieldConstPtr buildBy(Ctx& c, const TP& t) {
    FieldCreatePtr fc = getFieldCreate();
    size_t r = c.weighted({ 3, 2, 3, 1 });
    if(r == 0) return build(t);
    if(r == 1) { bool big = c.coin(); Enc e(big); e.type(t); In in(e.b, 65536, big); return fc->deserialize(&in.buf, &in); }
    if((t->k == KStruct || t->k == KUnion) && !t->kids.empty()) {
        if(r == 3 && t->k == KStruct) { // grow from a prefix
            size_t n = c.u(t->kids.size()); StringArray nm(t->names.begin(), t->names.begin() + n); FieldConstPtrArray f; for(size_t i = 0; i < n; i++) f.push_back(buildBy(c, t->kids[i]));
            StructureConstPtr s = fc->createStructure(t->id, nm, f);
            if(c.coin()) { for(size_t i = n; i < t->kids.size(); i++) s = fc->appendField(s, t->names[i], buildBy(c, t->kids[i])); return s; }
            StringArray n2(t->names.begin() + n, t->names.end()); FieldConstPtrArray f2; for(size_t i = n; i < t->kids.size(); i++) f2.push_back(buildBy(c, t->kids[i]));
            return fc->appendFields(s, n2, f2);
        }
        FieldBuilderPtr b = fc->createFieldBuilder(); if(t->id != (t->k == KStruct ? "structure" : "union") || c.coin()) b->setId(t->id);
        std::function<void(FieldBuilderPtr, const TP&)> fill = [&](FieldBuilderPtr b, const TP& t) {
            for(size_t i = 0; i < t->kids.size(); i++) { const TP& k = t->kids[i]; const string& n = t->names[i];
                if(c.chance(1, 3)) { b->add(n, buildBy(c, k)); continue; }
                switch(k->k) {
                case KScalar: b->add(n, k->st); break;
                case KBString: b->addBoundedString(n, k->bound); break;
                case KSArray: if(k->cls == 0) b->addArray(n, k->st); else if(k->cls == 1) b->addBoundedArray(n, k->st, k->bound); else b->addFixedArray(n, k->st, k->bound); break;
                case KStruct: case KUnion: { FieldBuilderPtr x = k->k == KStruct ? b->addNestedStructure(n) : b->addNestedUnion(n); x->setId(k->id); fill(x, k); x->endNested(); break; }
                case KStructArr: case KUnionArr: { if(c.coin()) { b->addArray(n, buildBy(c, k->kids[0])); break; }
                    FieldBuilderPtr x = k->k == KStructArr ? b->addNestedStructureArray(n) : b->addNestedUnionArray(n); x->setId(k->kids[0]->id); fill(x, k->kids[0]); x->endNested(); break; }
                case KVariant: if(c.coin()) b->add(n, fc->createVariantUnion()); else b->addNestedUnion(n)->endNested(); break;
                case KVariantArr: if(c.coin()) b->add(n, fc->createVariantUnionArray()); else b->addNestedUnionArray(n)->endNested(); break;
                } } };
        fill(b, t);
        if(t->k == KStruct) return b->createStructure(); return b->createUnion();
    }
    if(t->k == KStructArr) return fc->createStructureArray(std::tr1::dynamic_pointer_cast<const Structure>(buildBy(c, t->kids[0])));
    if(t->k == KUnionArr) return fc->createUnionArray(std::tr1::dynamic_pointer_cast<const Union>(buildBy(c, t->kids[0])));
    if(t->k == KVariantArr) return fc->createUnionArray(fc->createVariantUnion());
    if(t->k == KVariant) return fc->createUnion("any", StringArray(), FieldConstPtrArray());
    return build(t);
}
static void countNodes(const TP& t, size_t& n) { n++; for(auto& k : t->kids) countNodes(k, n); }
static TP rebuildAt(const TP& t, size_t& at, const std::function<TP(const TP&)>& f) {
    if(at-- == 0) return f(t);
    auto o = std::make_shared<T>(*t); for(auto& k : o->kids) { TP r = rebuildAt(k, at, f); k = r; if(at == (size_t)-1) break; }
    return o;
}
TP mutateType(Ctx& c, const TP& t, string* what) {
    size_t n = 0; countNodes(t, n); string w;
    for(int tries = 0; tries < 20; tries++) {
        size_t at = c.u(n);
        TP r = rebuildAt(t, at, [&](const TP& x) -> TP { auto o = std::make_shared<T>(*x);
            switch(x->k) {
            case KScalar: if(c.chance(1, 4)) { w = "scalar to array"; return mkSArray(x->st); } if(x->st == pvString && c.coin()) { w = "string to bounded"; return mkBString(5); } o->st = (ScalarType)((x->st + 1 + c.u(11)) % 12); w = "scalar type"; return o;
            case KBString: if(c.coin()) { w = "bounded to string"; return mkScalar(pvString); } o->bound = x->bound == 1 || c.coin() ? x->bound + 1 : x->bound - 1; w = "string bound"; return o;
            case KSArray: switch(c.u(3)) { case 0: o->st = (ScalarType)((x->st + 1 + c.u(11)) % 12); w = "element type"; return o; 
                case 1: o->cls = (x->cls + 1 + (int)c.u(2)) % 3; o->bound = o->cls ? (x->bound ? x->bound : 4) : 0; w = "array size class"; return o;
                default: if(!x->cls) return TP(); o->bound = x->bound == 1 || c.coin() ? x->bound + 1 : x->bound - 1; w = "array bound"; return o; }
            case KStruct: case KUnion:
                switch(c.u(6)) {
                case 0: o->id += "x"; w = "id"; return o;
                case 1: if(x->kids.empty()) return TP(); { size_t i = c.u(x->kids.size()); o->names[i] += "_"; for(size_t j = 0; j < i; j++) if(o->names[j] == o->names[i]) return TP(); for(size_t j = i + 1; j < o->names.size(); j++) if(o->names[j] == o->names[i]) return TP(); w = "member name"; return o; }
                case 2: if(x->kids.size() < 2) return TP(); { size_t i = c.u(x->kids.size() - 1); std::swap(o->names[i], o->names[i + 1]); std::swap(o->kids[i], o->kids[i + 1]); w = "member order"; return o; }
                case 3: { std::set<string> u(x->names.begin(), x->names.end()); o->names.push_back(genName(c, u)); o->kids.push_back(mkScalar(genScalarType(c))); w = "extra member"; return o; }
                case 4: if(x->kids.size() < 2) return TP(); { size_t i = c.u(x->kids.size()); o->names.erase(o->names.begin() + i); o->kids.erase(o->kids.begin() + i); w = "missing member"; return o; }
                default: if(x->kids.empty()) return TP(); if(x->k == KStruct) { o->k = KUnion; w = "structure to union"; } else { o->k = KStruct; w = "union to structure"; } return o;
                }
            case KVariant: w = "variant to union"; return mkUnion({ "a" }, { mkScalar(pvInt) }, "any");
            case KVariantArr: w = "variant array to variant"; return mkKind(KVariant);
            case KStructArr: case KUnionArr: w = "array to element"; return x->kids[0];
            }
            return TP(); });
        // the element of a compound array has to stay of its kind
        std::function<bool(const TP&)> ok = [&](const TP& x) -> bool { if(!x) return false; if(x->k == KStructArr && (!x->kids[0] || x->kids[0]->k != KStruct)) return false; if(x->k == KUnionArr && (!x->kids[0] || x->kids[0]->k != KUnion)) return false; for(auto& k : x->kids) if(!ok(k)) return false; return true; };
        if(ok(r) && !eq(r, t)) { if(what) *what = w; return r; }
    }
    if(what) *what = "replaced"; return t->k == KScalar && t->st == pvDouble ? mkScalar(pvString) : mkScalar(pvDouble);
}
TP describe(const FieldConstPtr& f) {
    if(!f) return TP();
    switch(f->getType()) {
    case scalar: {
        const Scalar* s = dynamic_cast<const Scalar*>(f.get()); if(!s) throw pbt::Fail("malformed-type", "scalar kind but not a scalar");
        const BoundedString* b = dynamic_cast<const BoundedString*>(f.get());
        if(b) return mkBString(b->getMaximumLength());
        return mkScalar(s->getScalarType()); }
    case scalarArray: {
        const ScalarArray* s = dynamic_cast<const ScalarArray*>(f.get()); if(!s) throw pbt::Fail("malformed-type", "scalarArray kind but not a scalar array");
        int cls = s->getArraySizeType() == Array::variable ? 0 : s->getArraySizeType() == Array::bounded ? 1 : 2;
        return mkSArray(s->getElementType(), cls, s->getMaximumCapacity()); }
    case structure: {
        const Structure* s = dynamic_cast<const Structure*>(f.get()); if(!s) throw pbt::Fail("malformed-type", "structure kind but not a structure");
        vector<TP> k; size_t n = s->getNumberFields();
        for(size_t i = 0; i < n; i++) k.push_back(describe(s->getField(i)));
        const StringArray& names = s->getFieldNames(); 
        return mkStruct(vector<string>(names.begin(), names.end()), k, s->getID()); }
    case union_: {
        const Union* s = dynamic_cast<const Union*>(f.get()); if(!s) throw pbt::Fail("malformed-type", "union kind but not a union");
        if(s->isVariant()) return mkKind(KVariant);
        vector<TP> k; size_t n = s->getNumberFields();
        for(size_t i = 0; i < n; i++) k.push_back(describe(s->getField(i)));
        const StringArray& names = s->getFieldNames(); 
        return mkUnion(vector<string>(names.begin(), names.end()), k, s->getID()); }
    case structureArray: {
        const StructureArray* s = dynamic_cast<const StructureArray*>(f.get()); if(!s) throw pbt::Fail("malformed-type", "structureArray kind");
        return mkArr(KStructArr, describe(s->getStructure())); }
    case unionArray: {
        const UnionArray* s = dynamic_cast<const UnionArray*>(f.get()); if(!s) throw pbt::Fail("malformed-type", "unionArray kind");
        UnionConstPtr u = s->getUnion(); if(u->isVariant()) return mkKind(KVariantArr);
        return mkArr(KUnionArr, describe(u)); }
    }
    throw pbt::Fail("malformed-type", "unknown kind");
}

template<class P> static void putS(const PVFieldPtr& f, uint64_t n) {
    typename P::value_type x; memset(&x, 0, sizeof x); 
    std::tr1::shared_ptr<P> p = std::tr1::dynamic_pointer_cast<P>(f); if(!p) throw pbt::Fail("wrong-class", "value object is not of its declared type");
    memcpy(&x, &n, sizeof x); p->put(x);
}
template<class P> static void putA(const PVFieldPtr& f, const vector<uint64_t>& n) {
    typedef typename P::value_type E; std::tr1::shared_ptr<P> p = std::tr1::dynamic_pointer_cast<P>(f); if(!p) throw pbt::Fail("wrong-class", "array object is not of its declared type");
    typename P::svector s(n.size()); for(size_t i = 0; i < n.size(); i++) { E x; memcpy(&x, &n[i], sizeof x); s[i] = x; }
    p->replace(freeze(s));
}
template<class P> static uint64_t getS(const PVField& f) {
    const P* p = dynamic_cast<const P*>(&f); if(!p) throw pbt::Fail("wrong-class", "value object is not of its declared type");
    typename P::value_type x = p->get(); uint64_t n = 0; memcpy(&n, &x, sizeof x); return n;
}
template<class P> static void getA(const PVField& f, vector<uint64_t>& out) {
    const P* p = dynamic_cast<const P*>(&f); if(!p) throw pbt::Fail("wrong-class", "array object is not of its declared type");
    typename P::const_svector s(p->view()); for(size_t i = 0; i < s.size(); i++) { typename P::value_type x = s[i]; uint64_t n = 0; memcpy(&n, &x, sizeof x); out.push_back(n); }
    if(p->getLength() != s.size()) throw pbt::Fail("length", "reported length differs from the view");
}
#define NUMS(X) X(pvBoolean, PVBoolean, PVBooleanArray) X(pvByte, PVByte, PVByteArray) X(pvShort, PVShort, PVShortArray) X(pvInt, PVInt, PVIntArray) X(pvLong, PVLong, PVLongArray) \
  X(pvUByte, PVUByte, PVUByteArray) X(pvUShort, PVUShort, PVUShortArray) X(pvUInt, PVUInt, PVUIntArray) X(pvULong, PVULong, PVULongArray) X(pvFloat, PVFloat, PVFloatArray) X(pvDouble, PVDouble, PVDoubleArray)

PVFieldPtr make(const VP& v) {
    PVFieldPtr p = getPVDataCreate()->createPVField(build(v->t)); store(p, v); return p;
}
void store(const PVFieldPtr& f, const VP& v) {
    const T& t = *v->t;
    switch(t.k) {
    case KScalar: 
        switch(t.st) {
#define X(ST, P, PA) case ST: putS<P>(f, v->num); break;
        NUMS(X)
#undef X
        default: std::tr1::dynamic_pointer_cast<PVString>(f)->put(v->str);
        } break;
    case KBString: std::tr1::dynamic_pointer_cast<PVString>(f)->put(v->str); break;
    case KSArray:
        if(t.cls == 2 && v->nums.empty() && v->strs.empty() && t.bound) break; // still empty
        switch(t.st) {
#define X(ST, P, PA) case ST: putA<PA>(f, v->nums); break;
        NUMS(X)
#undef X
        default: { PVStringArray::svector s(v->strs.size()); for(size_t i = 0; i < s.size(); i++) s[i] = v->strs[i]; std::tr1::dynamic_pointer_cast<PVStringArray>(f)->replace(freeze(s)); }
        } break;
    case KStruct: {
        PVStructurePtr s = std::tr1::dynamic_pointer_cast<PVStructure>(f); const PVFieldPtrArray& k = s->getPVFields();
        if(k.size() != v->kids.size()) throw pbt::Fail("malformed-value", "member count");
        for(size_t i = 0; i < k.size(); i++) store(k[i], v->kids[i]); break; }
    case KUnion: {
        PVUnionPtr u = std::tr1::dynamic_pointer_cast<PVUnion>(f);
        if(v->sel < 0) u->select(PVUnion::UNDEFINED_INDEX);
        else { PVFieldPtr x = u->select(v->sel); if(!x) throw pbt::Fail("malformed-value", "select returned nothing"); store(x, v->kids[0]); }
        break; }
    case KVariant: {
        PVUnionPtr u = std::tr1::dynamic_pointer_cast<PVUnion>(f);
        if(!v->kids[0]) u->set(PVFieldPtr()); else u->set(make(v->kids[0])); break; }
    case KStructArr: {
        PVStructureArrayPtr a = std::tr1::dynamic_pointer_cast<PVStructureArray>(f); PVStructureArray::svector s(v->kids.size());
        for(size_t i = 0; i < s.size(); i++) if(v->kids[i]) { s[i] = getPVDataCreate()->createPVStructure(a->getStructureArray()->getStructure()); store(s[i], v->kids[i]); }
        a->replace(freeze(s)); break; }
    case KUnionArr: case KVariantArr: {
        PVUnionArrayPtr a = std::tr1::dynamic_pointer_cast<PVUnionArray>(f); PVUnionArray::svector s(v->kids.size());
        for(size_t i = 0; i < s.size(); i++) if(v->kids[i]) { s[i] = getPVDataCreate()->createPVUnion(a->getUnionArray()->getUnion()); store(s[i], v->kids[i]); }
        a->replace(freeze(s)); break; }
    }
}
VP load(const PVField& f) {
    VP v = std::make_shared<V>(); v->t = describe(f.getField()); const T& t = *v->t;
    if(!v->t) throw pbt::Fail("malformed-value", "value without type");
    switch(t.k) {
    case KScalar:
        switch(t.st) {
#define X(ST, P, PA) case ST: v->num = getS<P>(f); break;
        NUMS(X)
#undef X
        default: v->str = dynamic_cast<const PVString&>(f).get();
        } break;
    case KBString: v->str = dynamic_cast<const PVString&>(f).get(); break;
    case KSArray:
        switch(t.st) {
#define X(ST, P, PA) case ST: getA<PA>(f, v->nums); break;
        NUMS(X)
#undef X
        default: { PVStringArray::const_svector s(dynamic_cast<const PVStringArray&>(f).view()); v->strs.assign(s.begin(), s.end()); }
        } break;
    case KStruct: {
        const PVStructure& s = dynamic_cast<const PVStructure&>(f); const PVFieldPtrArray& k = s.getPVFields();
        if(k.size() != t.kids.size()) throw pbt::Fail("malformed-value", "structure has " + std::to_string(k.size()) + " members, type has " + std::to_string(t.kids.size()));
        for(size_t i = 0; i < k.size(); i++) { if(!k[i]) throw pbt::Fail("malformed-value", "null member"); v->kids.push_back(load(*k[i])); 
            if(!eq(v->kids.back()->t, t.kids[i])) throw pbt::Fail("malformed-value", "member type differs from declared"); }
        break; }
    case KUnion: {
        const PVUnion& u = dynamic_cast<const PVUnion&>(f); v->sel = u.getSelectedIndex(); std::tr1::shared_ptr<const PVField> x = u.get();
        if(v->sel == PVUnion::UNDEFINED_INDEX) { v->sel = -1; if(x) throw pbt::Fail("malformed-union", "nothing selected but a value is present"); v->kids.push_back(VP()); }
        else {
            if(v->sel < 0 || (size_t)v->sel >= t.kids.size()) throw pbt::Fail("malformed-union", "selected index out of range");
            if(!x) throw pbt::Fail("malformed-union", "member selected but no value");
            v->kids.push_back(load(*x)); if(!eq(v->kids[0]->t, t.kids[v->sel])) throw pbt::Fail("malformed-union", "value type differs from selected member"); }
        break; }
    case KVariant: { const PVUnion& u = dynamic_cast<const PVUnion&>(f); std::tr1::shared_ptr<const PVField> x = u.get(); v->kids.push_back(x ? load(*x) : VP()); break; }
    case KStructArr: {
        const PVStructureArray& a = dynamic_cast<const PVStructureArray&>(f); PVStructureArray::const_svector s(a.view());
        for(size_t i = 0; i < s.size(); i++) { v->kids.push_back(s[i] ? load(*s[i]) : VP()); if(s[i] && !eq(v->kids.back()->t, t.kids[0])) throw pbt::Fail("malformed-value", "element type"); } break; }
    case KUnionArr: case KVariantArr: {
        const PVUnionArray& a = dynamic_cast<const PVUnionArray&>(f); PVUnionArray::const_svector s(a.view());
        for(size_t i = 0; i < s.size(); i++) { v->kids.push_back(s[i] ? load(*s[i]) : VP()); if(s[i] && !eq(v->kids.back()->t, t.k == KVariantArr ? mkKind(KVariant) : t.kids[0])) throw pbt::Fail("malformed-value", "element type"); } break; }
    }
    return v;
}
size_t span(const TP& t) { size_t n = 1; if(t->k == KStruct) for(auto& k : t->kids) n += span(k); return n; }

// ---------------------------------------------------------------- mutation
static bool mutateHere(Ctx& c, V& v, const ValOpts& o, string& what) {
    const T& t = *v.t;
    switch(t.k) {
    case KScalar: case KBString:
        if(t.st == pvString) { 
            if(!v.str.empty() && c.coin()) { size_t i = c.u(v.str.size()); v.str[i] = v.str[i] == 'x' ? 'y' : 'x'; what = "char " + std::to_string(i); }
            else if(t.k == KBString && v.str.size() >= t.bound) { v.str.resize(v.str.size() - 1); what = "string shorter"; }
            else { v.str += c.coin() ? string("x") : string(1, '\0'); what = "string longer"; } 
            return true; }
        if(t.st == pvBoolean) { v.num ^= 1; what = "boolean"; return true; }
        if(t.st == pvFloat) { uint64_t n = v.num; v.num = c.coin() ? n ^ 1 : n ^ 0x40000; uint32_t e = (uint32_t)(v.num >> 23) & 255; if(e == 255 || (n >> 23 & 255) == 255) v.num = n == 0x3f800000 ? 0x40000000 : 0x3f800000; what = "float bit"; return true; }
        if(t.st == pvDouble) { uint64_t n = v.num; v.num = c.coin() ? n ^ 1 : n ^ (1ull << 40); if((v.num >> 52 & 2047) == 2047 || (n >> 52 & 2047) == 2047) v.num = n == 0x3ff0000000000000ull ? 0x4000000000000000ull : 0x3ff0000000000000ull; what = "double bit"; return true; }
        { unsigned b = (unsigned)c.u(8 * width(t.st)); v.num ^= 1ull << b; what = "bit " + std::to_string(b); return true; }
    case KSArray: {
        size_t n = t.st == pvString ? v.strs.size() : v.nums.size();
        bool canGrow = t.cls == 0 || (t.cls == 1 && n < t.bound), canShrink = n && t.cls != 2;
        size_t m = c.weighted({ n ? 3u : 0u, canGrow ? 1u : 0u, canShrink ? 1u : 0u });
        if(!n && !canGrow) return false;
        if(m == 0 && n) { size_t i = c.oneOf({ (size_t)0, n - 1, c.u(n) }); V e; e.t = mkScalar(t.st); if(t.st == pvString) e.str = v.strs[i]; else e.num = v.nums[i];
            mutateHere(c, e, o, what); if(t.st == pvString) v.strs[i] = e.str; else v.nums[i] = e.num; what = "element " + std::to_string(i) + " " + what; return true; }
        if(m == 1 || !canShrink) { if(!canGrow) return false; if(t.st == pvString) v.strs.push_back(""); else v.nums.push_back(0); what = "longer"; return true; }
        if(t.st == pvString) v.strs.pop_back(); else v.nums.pop_back(); what = "shorter"; return true; }
    case KUnion:
        if(v.sel < 0) { v.sel = (int)c.u(t.kids.size()); v.kids[0] = genValue(c, t.kids[v.sel], o); what = "select"; return true; }
        if(c.coin() || t.kids.size() < 2) { v.sel = -1; v.kids[0] = VP(); what = "deselect"; return true; }
        { int n = (int)((v.sel + 1 + c.u(t.kids.size() - 1)) % t.kids.size()); v.sel = n; v.kids[0] = genValue(c, t.kids[n], o); what = "select other"; return true; }
    case KVariant:
        if(v.kids[0]) { if(c.coin()) { v.kids[0] = VP(); what = "variant null"; } 
            else { TP nt2 = v.kids[0]->t->k == KScalar && v.kids[0]->t->st == pvInt ? mkScalar(pvDouble) : mkScalar(pvInt); v.kids[0] = genValue(c, nt2, o); what = "variant type"; } }
        else { v.kids[0] = genValue(c, mkScalar(pvInt), o); what = "variant set"; } return true;
    case KStructArr: case KUnionArr: case KVariantArr: {
        size_t n = v.kids.size(); size_t m = c.weighted({ n ? 2u : 0u, 1, n ? 1u : 0u });
        if(!n) m = 1;
        TP et = t.k == KVariantArr ? mkKind(KVariant) : t.kids[0];
        if(m == 0) { size_t i = c.u(n); if(v.kids[i]) { v.kids[i] = VP(); what = "element to null"; } else { v.kids[i] = genValue(c, et, o); what = "element from null"; } return true; }
        if(m == 1) { v.kids.push_back(c.coin() ? VP() : genValue(c, et, o)); what = "append"; return true; }
        v.kids.pop_back(); what = "drop last"; return true; }
    default: return false;
    }
}
static void collect(const VP& v, vector<VP>& out, bool) {
    if(!v) return;
    if(v->t->k != KStruct) out.push_back(v);
    for(auto& k : v->kids) collect(k, out, true);
}
bool mutate(Ctx& c, VP v, const ValOpts& o, string* what) {
    vector<VP> all; collect(v, all, true); if(all.empty()) return false;
    string w; 
    for(int i = 0; i < 4; i++) { VP x = all[c.u(all.size())]; if(mutateHere(c, *x, o, w)) { if(what) *what = w + " of a " + show(x->t); return true; } }
    return false;
}

// ---------------------------------------------------------------- reference encoder
void Enc::size(int64_t n) {
    if(n < 0) u8(0xff);
    else if(n <= 253) u8((unsigned)n);
    else { u8(0xfe); num((uint64_t)n, 4); }
}
void Enc::str(const string& s) { size((int64_t)s.size()); b.insert(b.end(), s.begin(), s.end()); }
static unsigned scalarCode(ScalarType st) {
    switch(st) {
    case pvBoolean: return 0x00; case pvByte: return 0x20; case pvShort: return 0x21; case pvInt: return 0x22; case pvLong: return 0x23;
    case pvUByte: return 0x24; case pvUShort: return 0x25; case pvUInt: return 0x26; case pvULong: return 0x27;
    case pvFloat: return 0x42; case pvDouble: return 0x43; default: return 0x60;
    }
}
void Enc::type(const TP& t) {
    if(!t) { u8(0xff); return; }
    switch(t->k) {
    case KScalar: u8(scalarCode(t->st)); break;
    case KBString: u8(0x83); size((int64_t)t->bound); break;
    case KSArray: u8(scalarCode(t->st) | (t->cls == 0 ? 0x08 : t->cls == 1 ? 0x10 : 0x18)); if(t->cls) size((int64_t)t->bound); break;
    case KStruct: case KUnion:
        u8(t->k == KStruct ? 0x80 : 0x81); str(t->id == (t->k == KStruct ? "structure" : "union") ? "" : t->id); size((int64_t)t->kids.size());
        for(size_t i = 0; i < t->kids.size(); i++) { str(t->names[i]); type(t->kids[i]); } break;
    case KVariant: u8(0x82); break;
    case KStructArr: u8(0x88); type(t->kids[0]); break;
    case KUnionArr: u8(0x89); type(t->kids[0]); break;
    case KVariantArr: u8(0x8a); break;
    }
}
void Enc::value(const VP& v) {
    const T& t = *v->t;
    switch(t.k) {
    case KScalar: if(t.st == pvString) str(v->str); else num(v->num, width(t.st)); break;
    case KBString: str(v->str); break;
    case KSArray: {
        size_t n = t.st == pvString ? v->strs.size() : v->nums.size(); if(t.cls != 2) size((int64_t)n);
        if(t.st == pvString) for(auto& s : v->strs) str(s); else for(auto x : v->nums) num(x, width(t.st)); break; }
    case KStruct: for(auto& k : v->kids) value(k); break;
    case KUnion: size(v->sel); if(v->sel >= 0) value(v->kids[0]); break;
    case KVariant: if(!v->kids[0]) u8(0xff); else { type(v->kids[0]->t); value(v->kids[0]); } break;
    default: size((int64_t)v->kids.size()); for(auto& k : v->kids) { if(!k) u8(0); else { u8(1); value(k); } }
    }
}
bool anyBit(const vector<bool>& bits, size_t from, size_t n) { for(size_t i = from; i < from + n && i < bits.size(); i++) if(bits[i]) return true; return false; }
void Enc::partial(const VP& v, const vector<bool>& bits, size_t off) {
    if(off < bits.size() && bits[off]) { value(v); return; }
    if(v->t->k == KStruct) { size_t o = off + 1; for(auto& k : v->kids) { partial(k, bits, o); o += span(k->t); } }
}
void Enc::bitset(const vector<bool>& bits) {
    size_t n = bits.size(); while(n && !bits[n - 1]) n--;
    // whole 64-bit words in transport order, then the rest byte by byte, least significant first
    size_t bytes = (n + 7) / 8; size(bytes);
    auto byteAt = [&](size_t i) { unsigned x = 0; for(size_t k = 0; k < 8; k++) if(i * 8 + k < n && bits[i * 8 + k]) x |= 1u << k; return x; };
    size_t words = bytes / 8;
    for(size_t w = 0; w < words; w++) { uint64_t x = 0; for(size_t i = 0; i < 8; i++) x |= (uint64_t)byteAt(w * 8 + i) << (8 * i); num(x, 8); }
    for(size_t i = words * 8; i < bytes; i++) u8(byteAt(i));
}

// ---------------------------------------------------------------- transports
void Out::flushSerializeBuffer() {
    flushes++; out.insert(out.end(), (const uint8_t*)buf.getBuffer(), (const uint8_t*)buf.getBuffer() + buf.getPosition()); buf.clear();
    if(out.size() > (64u << 20) || flushes > 2000000) throw pbt::Fail("runaway", "serialization does not make progress");
}
void Out::ensureBuffer(size_t n) {
    if(buf.getRemaining() >= n) return;
    flushSerializeBuffer();
    if(buf.getRemaining() < n) throw pbt::Fail("ensure-too-much", "asked the transport for " + std::to_string(n) + " contiguous bytes, its buffer has " + std::to_string(buf.getSize()));
}
bool Out::directSerialize(ByteBuffer* existing, const char* p, size_t n, size_t sz) {
    if(existing != &buf) throw pbt::Fail("direct-buffer", "foreign buffer passed");
    if(!direct || (c && c->coin())) return false;
    flushSerializeBuffer(); out.insert(out.end(), (const uint8_t*)p, (const uint8_t*)p + n * sz); directs++; return true;
}
void Out::cachedSerialize(std::tr1::shared_ptr<const Field> const& f, ByteBuffer* b) { 
    if(!f) { ensureBuffer(1); b->putByte(-1); return; } // what a transport does for an absent type
    f->serialize(b, this); }

In::In(const vector<uint8_t>& bytes, size_t cap_, bool big, bool direct_, Ctx* c_) : buf(cap_, order(big)), in(bytes), direct(direct_), c(c_), cap(cap_) {
    size_t n = std::min(cap, in.size()); if(c && n) n = c->u(n + 1);
    buf.clear(); if(n) buf.put((const char*)&in[0], 0, n); at = n; buf.flip();
}
void In::ensureData(size_t n) {
    size_t have = buf.getRemaining(); if(have >= n) return;
    if(n > cap && hostile) throw Eof();
    if(n > cap) throw pbt::Fail("ensure-too-much", "asked the transport for " + std::to_string(n) + " contiguous bytes, its buffer has " + std::to_string(cap));
    refills++;
    std::vector<char> keep(buf.getBuffer() + buf.getPosition(), buf.getBuffer() + buf.getPosition() + have);
    size_t avail = in.size() - at; if(avail < n - have) throw Eof();
    size_t most = std::min(avail, cap - have), least = n - have; size_t take = c ? least + c->u(most - least + 1) : most;
    buf.clear(); if(have) buf.put(&keep[0], 0, have); if(take) buf.put((const char*)&in[at], 0, take); at += take; buf.flip();
}
bool In::directDeserialize(ByteBuffer* existing, char* p, size_t n, size_t sz) {
    if(existing != &buf) throw pbt::Fail("direct-buffer", "foreign buffer passed");
    if(!direct || (c && c->coin())) return false;
    size_t want = n * sz; if(left() < want) throw Eof();
    size_t fromBuf = std::min(want, buf.getRemaining());
    if(fromBuf) { memcpy(p, buf.getBuffer() + buf.getPosition(), fromBuf); buf.setPosition(buf.getPosition() + fromBuf); }
    if(want > fromBuf) { memcpy(p + fromBuf, &in[at], want - fromBuf); at += want - fromBuf; }
    directs++; return true;
}
std::tr1::shared_ptr<const Field> In::cachedDeserialize(ByteBuffer* b) { return getFieldCreate()->deserialize(b, this); }
size_t genCap(Ctx& c) { 
    switch(c.weighted({ 2, 6, 2 })) { case 0: return 65536; case 1: return 20 + c.u(60); default: return 100 + c.u(2000); }
}
} // namespace gp
