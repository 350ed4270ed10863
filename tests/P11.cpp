// P11: copies and clones are equal to, and independent of, their source; value equality is exact
#include "gen_pvd.hpp"
#include <pv/pvSubArrayCopy.h>
using namespace gp; using namespace pvd; using pbt::Ctx;

static double dbl(ScalarType st, uint64_t n) { if(st == pvFloat) { uint32_t x = (uint32_t)n; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &n, 8); return d; }
static bool isNan(ScalarType st, uint64_t n) { return (st == pvFloat || st == pvDouble) && dbl(st, n) != dbl(st, n); }
static bool numEq(ScalarType st, uint64_t a, uint64_t b) { return st == pvFloat || st == pvDouble ? dbl(st, a) == dbl(st, b) || (isNan(st, a) && isNan(st, b)) : a == b; }
// whether a NaN equals a NaN is not said, only that it equals nothing else
static bool hasNan(const VP& v) {
    if(!v) return false;
    if(v->t->k == KScalar && v->t->st != pvString && isNan(v->t->st, v->num)) return true;
    if(v->t->k == KSArray) for(uint64_t n : v->nums) if(isNan(v->t->st, n)) return true;
    for(auto& k : v->kids) if(hasNan(k)) return true;
    return false;
}
// are two values equal?  the bound of a bare string or array is a property of the place, not of the value
static bool same(const VP& a, const VP& b) {
    if(!a || !b) return !a && !b;
    const T &s = *a->t, &t = *b->t;
    auto cls = [](Kind k) { return k == KBString ? KScalar : k == KVariant ? KUnion : k == KVariantArr ? KUnionArr : k; };
    if(cls(s.k) != cls(t.k)) return false;
    switch(s.k) {
    case KScalar: case KBString: return s.st == t.st && (s.st == pvString ? a->str == b->str : numEq(s.st, a->num, b->num));
    case KSArray: if(s.st != t.st || a->nums.size() != b->nums.size() || a->strs != b->strs) return false; for(size_t i = 0; i < a->nums.size(); i++) if(!numEq(s.st, a->nums[i], b->nums[i])) return false; return true;
    default: if(!eq(a->t, b->t) || a->sel != b->sel || a->kids.size() != b->kids.size()) return false; for(size_t i = 0; i < a->kids.size(); i++) if(!same(a->kids[i], b->kids[i])) return false; return true;
    }
}
static void compare(const PVFieldPtr& a, const VP& va, const PVFieldPtr& b, const VP& vb, const char* key, const std::string& msg) {
    bool want = same(va, vb); if(want && hasNan(va)) return;
    CHECK_EQ(*a == *b, want, key, show(va) << " / " << show(vb) << " " << msg); CHECK_EQ(*b == *a, want, key, "reversed: " << show(vb) << " / " << show(va) << " " << msg);
    CHECK_EQ(*a != *b, !want, key, "!= " << msg); CHECK_EQ(a->equals(*b), want, key, "equals " << msg);
}
// change the value in place as far as the interfaces allow, instead of rebuilding it
static void poke(Ctx& c, const PVFieldPtr& f, const VP& now, const VP& next) {
    if(eq(now, next)) return;
    switch(now->t->k) {
    case KStruct: { auto& k = static_cast<PVStructure&>(*f).getPVFields(); for(size_t i = 0; i < k.size(); i++) poke(c, k[i], now->kids[i], next->kids[i]); return; }
    case KUnion: case KVariant: { PVFieldPtr x = static_cast<PVUnion&>(*f).get(); if(x && now->sel == next->sel && next->kids[0] && eq(now->kids[0]->t, next->kids[0]->t)) { poke(c, x, now->kids[0], next->kids[0]); return; } store(f, next); return; }
    case KSArray: if(now->t->st == pvInt && now->t->cls != 2 && c.coin()) { PVIntArray& a = static_cast<PVIntArray&>(*f); PVIntArray::svector s(a.reuse()); s.resize(next->nums.size()); for(size_t i = 0; i < s.size(); i++) s[i] = (int32)next->nums[i]; a.replace(freeze(s)); return; }
        if(now->t->st == pvString && now->t->cls != 2 && c.coin()) { PVStringArray& a = static_cast<PVStringArray&>(*f); PVStringArray::svector s(a.reuse()); s.resize(next->strs.size()); for(size_t i = 0; i < s.size(); i++) s[i] = next->strs[i]; a.replace(freeze(s)); return; }
        if(c.coin()) { size_t n = next->nums.size() + next->strs.size(); if(now->t->cls != 2 && n) static_cast<PVArray&>(*f).setLength(n); } store(f, next); return;
    case KStructArr: // elements that change are replaced by changed copies, the others stay the same objects
        if(now->kids.size() == next->kids.size()) { PVStructureArray& a = static_cast<PVStructureArray&>(*f); PVStructureArray::svector s(a.reuse()); for(size_t i = 0; i < s.size(); i++) if(now->kids[i] && next->kids[i] ? !eq(now->kids[i], next->kids[i]) : now->kids[i] != next->kids[i]) s[i] = next->kids[i] ? makeStruct(next->kids[i]) : PVStructurePtr(); a.replace(freeze(s)); return; }
        store(f, next); return;
    default: store(f, next);
    }
}
static ValOpts vo(bool nan = false) { ValOpts o; o.nan = nan; o.big = false; o.maxLen = 5; o.fixedFull = true; return o; }

static PVFieldPtr clones(Ctx& c, const PVFieldPtr& a, const TP& t, std::string& how) {
    PVDataCreatePtr dc = getPVDataCreate();
    if(c.coin()) { how = "createPVField(clone)"; return dc->createPVField(a); }
    switch(t->k) {
    case KScalar: case KBString: how = "createPVScalar(clone)"; return dc->createPVScalar(std::tr1::static_pointer_cast<PVScalar>(a));
    case KSArray: how = "createPVScalarArray(clone)"; return dc->createPVScalarArray(std::tr1::static_pointer_cast<PVScalarArray>(a));
    case KStruct: how = "createPVStructure(clone)"; return dc->createPVStructure(std::tr1::static_pointer_cast<PVStructure>(a));
    case KUnion: case KVariant: how = "createPVUnion(clone)"; return dc->createPVUnion(std::tr1::static_pointer_cast<PVUnion>(a));
    default: how = "createPVField(clone)"; return dc->createPVField(a);
    }
}
static void copyTo(Ctx& c, const PVFieldPtr& a, const PVFieldPtr& b, const TP& t, std::string& how) {
    switch(c.u(4)) {
    case 0: how = "PVField::copy"; b->copy(*a); return;
    case 1: how = "PVField::copyUnchecked"; b->copyUnchecked(*a); return;
    case 2: how = "Convert::copy"; getConvert()->copy(a, b); return;
    default: {
        bool un = c.coin(); how = un ? "typed copyUnchecked" : "typed copy";
#define TYPED(P) { P &x = static_cast<P&>(*a), &y = static_cast<P&>(*b); if(un) y.copyUnchecked(x); else y.copy(x); return; }
        switch(t->k) {
        case KScalar: case KBString: if(c.coin()) { how = "assign"; static_cast<PVScalar&>(*b).assign(static_cast<PVScalar&>(*a)); return; } TYPED(PVScalar)
        case KSArray: if(c.coin()) { how = "assign"; static_cast<PVScalarArray&>(*b).assign(static_cast<PVScalarArray&>(*a)); return; } TYPED(PVScalarArray)
        case KStruct: TYPED(PVStructure)
        case KUnion: case KVariant: TYPED(PVUnion)
        case KStructArr: TYPED(PVStructureArray)
        default: TYPED(PVUnionArray)
        } }
    }
}
PBT_TEST(copies, 70000, 3000000)
{
    bool nan = c.chance(1, 6);
    TypeOpts o; o.depth = 3; o.nodes = 12; o.wide = false; TP t = genType(c, o); VP va = genValue(c, t, vo(nan)), vb; PVFieldPtr a = make(va), b; std::string how; c.nontrivial(nodes(t) > 1);
    if(c.chance(1, 3)) { b = clones(c, a, t, how); }
    else { b = getPVDataCreate()->createPVField(build(t)); if(c.coin()) { VP old = genValue(c, t, vo(nan)); store(b, old); c.label("onto an older value"); } copyTo(c, a, b, t, how); }
    vb = clone(va); c.label(how); c.desc << how << " " << show(t) << " = " << show(va).substr(0, 400);
    CHECK(b->getField() == a->getField(), "copied-type", how); std::string d = diff(load(b), vb); CHECK(d.empty(), "copied-value", how << ": " << d); d = diff(load(a), va); CHECK(d.empty(), "source-changed", how << ": " << d);
    compare(a, va, b, vb, "copy-not-equal", how);
    size_t n = 1 + c.u(5);
    for(size_t i = 0; i < n; i++) { // neither sees changes to the other
        bool left = c.coin(); VP& now = left ? va : vb; VP next = clone(now); std::string w; if(!mutate(c, next, vo(nan), &w)) continue; c.desc << "; " << (left ? "source " : "copy ") << w;
        poke(c, left ? a : b, now, next); now = next;
        d = diff(load(left ? a : b), now); CHECK(d.empty(), "mutation", d); d = diff(load(left ? b : a), left ? vb : va); CHECK(d.empty(), left ? "copy-sees-source" : "source-sees-copy", how << ", " << w << ": " << d);
        compare(a, va, b, vb, "equality-after-change", w);
        if(c.chance(1, 4)) { copyTo(c, left ? a : b, left ? b : a, t, how); (left ? vb : va) = clone(now); d = diff(load(left ? b : a), now); CHECK(d.empty(), "copied-back", how << d); compare(a, va, b, vb, "copy-not-equal", "copied back " + how); c.desc << "; copied back"; }
    }
}
PBT_TEST(large, 600, 20000)
{
    // one difference counts, no matter how far inside
    Large l = genLarge(c); VP va = l.v, vb = clone(l.v); c.nontrivial(true); PVFieldPtr a = make(va), b; std::string how = "stored";
    if(c.coin()) b = clones(c, a, l.t, how); else { b = getPVDataCreate()->createPVField(build(l.t)); if(c.coin()) { VP old = clone(l.v); l.touch(old); store(b, old); } copyTo(c, a, b, l.t, how); } c.desc << " " << how;
    std::string d = diff(load(b), vb); CHECK(d.empty(), "copied-value", how << ": " << d.substr(0, 300)); compare(a, va, b, vb, "copy-not-equal", how);
    bool left = c.coin(); VP& now = left ? va : vb; VP next = clone(now); l.touch(next); CHECK(!same(now, next), "internal", "nothing was changed"); poke(c, left ? a : b, now, next); now = next;
    d = diff(load(left ? a : b), now); CHECK(d.empty(), "mutation", d.substr(0, 300)); d = diff(load(left ? b : a), left ? vb : va); CHECK(d.empty(), left ? "copy-sees-source" : "source-sees-copy", how << ": " << d.substr(0, 300));
    CHECK(!(*a == *b) && !(*b == *a) && *a != *b, "equality-after-change", "equal although one was changed"); PVFieldPtr x = make(vb); CHECK(*x == *b && *b == *x && !(*x != *b), "equality", "unequal to another of the same value");
    PVFieldPtr pa = static_cast<PVStructure&>(*a).getSubFieldT("large"), pb = static_cast<PVStructure&>(*b).getSubFieldT("large"); if(va->kids[1]->t->k != KStruct) { CHECK(!(*pa == *pb), "equality-after-change", "member"); pa->copy(*pb); compare(pa, vb->kids[1], pb, vb->kids[1], "copy-not-equal", "member"); }
}
PBT_TEST(equality, 100000, 5000000)
{
    bool nan = c.chance(1, 6);
    // every single difference counts
    TypeOpts o; o.depth = 3; o.nodes = 12; o.wide = false; TP t = genType(c, o); VP a = genValue(c, t, vo(nan)), b; std::string w; c.nontrivial(nodes(t) > 1);
    switch(c.weighted({ 1, 4, 2, 1, 1 })) {
    case 0: b = clone(a); w = "same"; break;
    case 1: b = clone(a); if(!mutate(c, b, vo(nan), &w)) w = "same"; break;
    case 2: { TP u = mutateType(c, t, &w); b = genValue(c, u, vo(nan)); 
        std::function<void(const VP&, const VP&)> align = [&](const VP& x, const VP& y) { if(!x || !y) return; if(x->t->st == y->t->st && (x->t->k == y->t->k || (x->t->k < 2 && y->t->k < 2)) ) { if(y->t->k == KScalar) y->num = x->num; if(y->t->k < 2 && (y->t->k == KScalar || x->str.size() <= y->t->bound)) y->str = x->str; if(y->t->k == KSArray && (!y->t->cls || (y->t->cls == 1 && x->nums.size() + x->strs.size() <= y->t->bound))) { y->nums = x->nums; y->strs = x->strs; } } if(x->t->k == KStruct && y->t->k == KStruct) for(size_t i = 0; i < x->kids.size() && i < y->kids.size(); i++) align(x->kids[i], y->kids[i]); };
        align(a, b); w = "type: " + w; break; }
    case 3: b = genValue(c, t, vo(nan)); w = "unrelated"; break;
    default: b = genValue(c, genType(c, o), vo(nan)); w = "unrelated type"; break;
    }
    c.label(w.substr(0, w.find(" of a "))); c.desc << show(a).substr(0, 300) << " vs " << show(b).substr(0, 300) << " (" << w << ")";
    PVFieldPtr pa = make(a), pb = make(b); compare(pa, a, pb, b, "equality", w); compare(pa, a, pa, a, "reflexive", "");
    // inside of a variant union as well
    PVUnionPtr ua = getPVDataCreate()->createPVVariantUnion(), ub = getPVDataCreate()->createPVVariantUnion(); CHECK(*ua == *ub, "equality-variant", "two empty variant unions differ");
    ua->set(pa); CHECK(!(*ua == *ub) && !(*ub == *ua), "equality-variant", "empty and non-empty variant union are equal"); ub->set(pb); if(!same(a, b) || !hasNan(a)) CHECK_EQ(*ua == *ub, same(a, b), "equality-variant", w);
    // copying between different types is refused by the checked interface and changes nothing
    if(!eq(a->t, b->t)) { MUST_THROW(pa->copy(*pb), "copy-other-type", w); std::string d = diff(load(pa), a); CHECK(d.empty(), "refused-copy-changed", d); c.label("copy refused"); }
}
