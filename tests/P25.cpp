// P25: immutable fields and announcements
#include "gen_pvd.hpp"
#include <pv/pvSubArrayCopy.h>
using namespace gp;
using namespace epics::pvData;
namespace {
using std::string; using std::vector;
struct H : public PostHandler { int n = 0; void postPut() override { n++; } };
struct Node { VP* v; PVFieldPtr f; bool imm = false; int parent; std::tr1::shared_ptr<H> h; size_t end; };
struct World { VP root; PVStructurePtr pv; vector<Node> n; };
void collect(World& w, VP* v, int parent) { size_t i = w.n.size(); Node x; x.v = v; x.parent = parent; x.f = i ? w.pv->getSubFieldT(i) : PVFieldPtr(w.pv); x.h.reset(new H); x.f->setPostHandler(x.h); w.n.push_back(x); if((*v)->t->k == KStruct) for(auto& k : (*v)->kids) collect(w, &k, (int)i); w.n[i].end = w.n.size(); }
bool leaf(const Node& x) { return (*x.v)->t->k != KStruct; }
enum Res { REFUSE, DONE, EITHER };
template<class T> void arr(PVScalarArray& a, const PVScalarArray& s, int op) { PVValueArray<T>& x = dynamic_cast<PVValueArray<T>&>(a); const PVValueArray<T>& y = dynamic_cast<const PVValueArray<T>&>(s); switch(op) { case 0: x.replace(y.view()); break; case 1: x.template putFrom<T>(y.view()); break; case 2: { typename PVValueArray<T>::const_svector v(y.view()); x.swap(v); break; } default: x.reuse(); } }
void arrOp(PVScalarArray& a, const PVScalarArray& s, int op) { switch(a.getScalarArray()->getElementType()) { case pvBoolean: arr<boolean>(a, s, op); break; case pvByte: arr<int8>(a, s, op); break; case pvShort: arr<int16>(a, s, op); break; case pvInt: arr<int32>(a, s, op); break; case pvLong: arr<int64>(a, s, op); break; case pvUByte: arr<uint8>(a, s, op); break; case pvUShort: arr<uint16>(a, s, op); break; case pvUInt: arr<uint32>(a, s, op); break; case pvULong: arr<uint64>(a, s, op); break; case pvFloat: arr<float>(a, s, op); break; case pvDouble: arr<double>(a, s, op); break; default: arr<string>(a, s, op); } }
template<class A> void seqOp(A& x, const A& y, int op) { switch(op) { case 0: x.replace(y.view()); break; case 1: x.copy(y); break; case 2: { typename A::const_svector v(y.view()); x.swap(v); break; } case 3: x.reuse(); break; case 4: x.copyUnchecked(y); break; } }
size_t lenOf(const VP& v) { return v->t->k == KSArray ? (v->t->st == pvString ? v->strs.size() : v->nums.size()) : v->kids.size(); }
bool fits(const TP& t, size_t n) { return t->k != KSArray || t->cls == 0 || (t->cls == 1 ? n <= t->bound : n == t->bound); }
VP as(const VP& v, const TP& t) { auto r = std::make_shared<V>(*v); r->t = t; return r; }
PBT_TEST(histories, 100000, 1500000) {
    TypeOpts to; to.depth = 3; to.nodes = 10; ValOpts vo; vo.big = false; vo.maxLen = 4; World w; TP rt = genStruct(c, to); w.root = genValue(c, rt, vo); w.pv = makeStruct(w.root); collect(w, &w.root, -1); c.desc << show(w.root) << "; "; int steps = 1 + c.u(12); int refused = 0, done = 0;
    for(int s = 0; s < steps; s++) {
        size_t ti = c.u((uint32_t)w.n.size()); Node& t = w.n[ti]; for(auto& x : w.n) x.h->n = 0; VP before = clone(w.root);
        if(c.chance(1, 5)) { t.f->setImmutable(); for(size_t i = ti; i < t.end; i++) w.n[i].imm = true; c.desc << "freeze " << ti << "; "; for(size_t i = 0; i < w.n.size(); i++) CHECK_EQ(w.n[i].f->isImmutable(), w.n[i].imm, "isImmutable", "field " + std::to_string(i)); for(auto& x : w.n) CHECK_EQ(x.h->n, 0, "freeze_announced", "setImmutable"); continue; }
        Res want = t.imm ? REFUSE : DONE; int lo = 1, hi = 1; VP nv; bool known = true, unchecked = false; std::set<size_t> leaves; TP ty = (*t.v)->t; string op; string what; bool threw = false;
        auto go = [&](const std::function<void()>& f) { try { f(); } catch(std::exception& e) { threw = true; what = e.what(); } };
        if(c.chance(1, 25)) { // a handler is there already
            std::tr1::shared_ptr<H> other(new H); go([&]() { t.f->setPostHandler(other); }); CHECK(threw, "second_handler", "accepted"); t.f->setPostHandler(t.h); c.desc << "handler " << ti << "; "; continue; }
        nv = genValue(c, ty, vo); if(ty->k != KStruct && c.chance(1, 12)) nv = clone(*t.v);
        switch(ty->k) {
        case KScalar: case KBString: { PVScalar& p = dynamic_cast<PVScalar&>(*t.f); int o = c.u(6); VP sv = nv; bool tooLong = false; if(ty->k == KBString) { sv = as(nv, mkScalar(pvString)); if(c.chance(1, 4)) { sv->str = string(ty->bound + 1 + c.u(3), 'x'); tooLong = true; } }
            if(o == 0 && t.imm) o = 1; if(tooLong) { want = REFUSE; }
            if((o == 3 || o == 4) && ty->k == KScalar && ty->st != pvString && c.chance(1, 3)) { // conversion from text, sometimes impossible
                VP tv = defaultValue(mkScalar(pvString)); bool bad = c.coin(); tv->str = bad ? "not a value" : ty->st == pvBoolean ? "true" : "7"; PVFieldPtr src = make(tv); op = o == 3 ? "assign text " + tv->str : "copyUnchecked text " + tv->str; unchecked = o == 4; if(bad) want = REFUSE; else { known = false; if(unchecked) want = DONE; } if(o == 3) go([&]() { p.assign(dynamic_cast<PVScalar&>(*src)); }); else go([&]() { p.copyUnchecked(dynamic_cast<PVScalar&>(*src)); }); break; }
            if(tooLong) { PVFieldPtr src = make(sv); if(o == 0) { op = "put long"; go([&]() { dynamic_cast<PVString&>(p).put(sv->str); }); } else if(o == 4) { op = "copyUnchecked long"; go([&]() { p.copyUnchecked(dynamic_cast<PVScalar&>(*src)); }); } else { op = "assign long"; go([&]() { p.assign(dynamic_cast<PVScalar&>(*src)); }); } break; }
            switch(o) { case 0: op = "put"; if(c.coin()) go([&]() { store(t.f, nv); }); else { op = "putFrom"; PVFieldPtr src = make(sv); AnyScalar a; dynamic_cast<PVScalar&>(*src).getAs(a); go([&]() { p.putFrom(a); }); } break;
            case 1: { op = "copy"; PVFieldPtr src = make(nv); go([&]() { p.copy(dynamic_cast<PVScalar&>(*src)); }); break; } case 2: { op = "PVField::copy"; PVFieldPtr src = make(nv); go([&]() { t.f->copy(*src); }); break; }
            case 3: { op = "assign"; PVFieldPtr src = make(sv); go([&]() { p.assign(dynamic_cast<PVScalar&>(*src)); }); break; } case 4: { op = "copyUnchecked"; unchecked = true; PVFieldPtr src = make(nv); if(want == REFUSE) want = DONE; go([&]() { p.copyUnchecked(dynamic_cast<PVScalar&>(*src)); }); break; }
            default: { op = "PVField::copyUnchecked"; unchecked = true; PVFieldPtr src = make(nv); want = DONE; go([&]() { t.f->copyUnchecked(*src); }); } } break; }
        case KSArray: { PVScalarArray& p = dynamic_cast<PVScalarArray&>(*t.f); int o = c.u(11); VP sv = as(nv, mkSArray(ty->st)); if(ty->cls && c.chance(1, 4)) { size_t n = ty->bound + 1; if(ty->st == pvString) sv->strs.resize(n); else sv->nums.resize(n); if(o != 2 && o != 3) nv = sv; } bool ok = fits(ty, lenOf(sv)) || (o >= 4 && o <= 8 && !lenOf(sv) && !lenOf(*t.v)); if(!ok && (o == 2 || o == 3)) o = 0; PVFieldPtr src = make(sv); PVScalarArray& q = dynamic_cast<PVScalarArray&>(*src); if(!ok && o < 9) want = REFUSE;
            bool typed = ok && (o == 5 || o == 8); PVFieldPtr same = typed ? make(as(nv, ty)) : PVFieldPtr(); nv = as(nv, ty);
            switch(o) { case 0: case 1: op = o ? "putFrom" : "replace"; go([&]() { arrOp(p, q, o); }); break; case 2: op = "swap"; lo = 0; go([&]() { arrOp(p, q, 2); }); break; case 3: op = "reuse"; lo = 0; known = false; go([&]() { arrOp(p, q, 3); }); break;
            case 4: op = "copy"; go([&]() { p.copy(q); }); break; case 5: op = "PVField::copy"; if(typed) go([&]() { t.f->copy(*same); }); else go([&]() { p.assign(q); }); break; case 6: op = "assign"; go([&]() { p.assign(q); }); break;
            case 7: case 8: op = "copyUnchecked"; unchecked = true; if(ok) want = DONE; if(typed) go([&]() { t.f->copyUnchecked(*same); }); else go([&]() { p.copyUnchecked(q); }); break;
            case 9: { size_t n = lenOf(*t.v), x = c.u(6); op = "setLength " + std::to_string(x); lo = 0; known = false; if(want == DONE && !fits(ty, x)) want = x == n ? EITHER : REFUSE; if(want == REFUSE && t.imm) {} go([&]() { p.setLength(x); }); break; }
            default: { op = "sub-array"; lo = 0; want = t.imm ? REFUSE : EITHER; known = false; size_t n = lenOf(sv); size_t cnt = n ? 1 + c.u((uint32_t)n) : 0; PVArray& pa = p; PVArray& qa = q; if(cnt) lo = 1; else lo = 0; hi = 1; bool fit = lenOf(*t.v) >= cnt || fits(ty, cnt); if(!t.imm && fit && cnt) want = fits(ty, std::max(cnt, lenOf(*t.v))) ? DONE : EITHER; go([&]() { copy(qa, 0, 1, pa, 0, 1, cnt); }); } } break; }
        case KStructArr: case KUnionArr: case KVariantArr: { int o = c.u(10); PVFieldPtr src = make(nv); static const char* nm[] = {"replace", "copy", "swap", "reuse", "copyUnchecked"}; 
            if(o < 5) { op = nm[o]; if(o == 2) lo = 0; if(o == 3) { lo = 0; known = false; } if(o == 4) { unchecked = true; want = DONE; } if(ty->k == KStructArr) go([&]() { seqOp(dynamic_cast<PVStructureArray&>(*t.f), dynamic_cast<PVStructureArray&>(*src), o); }); else go([&]() { seqOp(dynamic_cast<PVUnionArray&>(*t.f), dynamic_cast<PVUnionArray&>(*src), o); }); }
            else if(o == 5) { op = "PVField::copy"; go([&]() { t.f->copy(*src); }); }
            else { lo = 0; known = false; size_t n = lenOf(*t.v), a = c.u(4), b = c.u(3); if(o == 6) { op = "setLength"; go([&]() { dynamic_cast<PVArray&>(*t.f).setLength(a); }); } else if(o == 7) { op = "append"; if(ty->k == KStructArr) go([&]() { dynamic_cast<PVStructureArray&>(*t.f).append(a); }); else go([&]() { dynamic_cast<PVUnionArray&>(*t.f).append(a); }); } else if(o == 8) { op = "remove"; bool none = b == 0 || a + b > n; if(t.imm && none) want = EITHER; if(ty->k == KStructArr) go([&]() { dynamic_cast<PVStructureArray&>(*t.f).remove(a, b); }); else go([&]() { dynamic_cast<PVUnionArray&>(*t.f).remove(a, b); }); } else { op = "compress"; if(ty->k == KStructArr) go([&]() { dynamic_cast<PVStructureArray&>(*t.f).compress(); }); else go([&]() { dynamic_cast<PVUnionArray&>(*t.f).compress(); }); } } break; }
        case KUnion: case KVariant: { PVUnion& p = dynamic_cast<PVUnion&>(*t.f); int o = c.u(4); PVFieldPtr src = make(nv); PVUnion& q = dynamic_cast<PVUnion&>(*src); if(o == 3 && t.imm) o = 0;
            switch(o) { case 0: op = "copy"; go([&]() { p.copy(q); }); break; case 1: op = "PVField::copy"; go([&]() { t.f->copy(*src); }); break; case 2: op = "copyUnchecked"; unchecked = true; want = DONE; go([&]() { p.copyUnchecked(q); }); break;
            default: op = "set"; if(ty->k == KVariant) go([&]() { p.set(q.get()); }); else if(c.chance(1, 6)) { op = "set wrong"; want = REFUSE; int x = (int)ty->kids.size() + c.u(3); go([&]() { p.set(x, q.get()); }); } else if(q.get() && c.coin()) go([&]() { p.set(ty->names[q.getSelectedIndex()], q.get()); }); else go([&]() { p.set(q.getSelectedIndex(), q.get()); }); } break; }
        case KStruct: { PVStructurePtr src = makeStruct(nv); PVStructure& p = dynamic_cast<PVStructure&>(*t.f); int o = c.u(5); bool inner = false; for(size_t i = ti; i < t.end; i++) inner |= w.n[i].imm; lo = hi = 0; for(size_t i = ti; i < t.end; i++) if(leaf(w.n[i])) leaves.insert(i);
            if(o < 2 && inner) want = REFUSE;
            if(o < 3 && c.chance(1, 10)) { TP other = genStruct(c, to); if(!eq(other, ty)) { op = "copy of another type"; want = REFUSE; PVStructurePtr x = makeStruct(genValue(c, other, vo)); if(o == 0) go([&]() { p.copy(*x); }); else go([&]() { t.f->copy(*x); }); break; } }
            switch(o) { case 0: op = "copy"; go([&]() { p.copy(*src); }); break; case 1: op = "PVField::copy"; go([&]() { t.f->copy(*src); }); break; case 2: op = "copyUnchecked"; unchecked = true; want = DONE; go([&]() { t.f->copyUnchecked(*src); }); break; case 3: op = "copyUnchecked"; unchecked = true; want = DONE; go([&]() { p.copyUnchecked(*src); }); break;
            default: { unchecked = true; want = DONE; known = true; BitSet m; vector<bool> sel(t.end - ti); op = "masked"; for(size_t i = 0; i < sel.size(); i++) if(c.chance(1, 4)) { m.set((uint32_t)i); sel[i] = true; op += " " + std::to_string(i); } bool inv = c.chance(1, 5); if(inv) { op += " inverse"; for(size_t i = 0; i < sel.size(); i++) sel[i] = !sel[i]; } leaves.clear(); for(size_t i = ti; i < t.end; i++) { bool s2 = false; for(int a = (int)i; a >= (int)ti; a = w.n[a].parent) s2 |= sel[a - ti]; if(s2 && leaf(w.n[i])) leaves.insert(i); } 
                VP mix = clone(*t.v); vector<VP*> flat, srcs; std::function<void(VP*, VP*)> rec = [&](VP* a, VP* b) { flat.push_back(a); srcs.push_back(b); if((*a)->t->k == KStruct) for(size_t i = 0; i < (*a)->kids.size(); i++) rec(&(*a)->kids[i], &(*b)->kids[i]); }; rec(&mix, &nv); for(size_t i : leaves) *flat[i - ti] = clone(*srcs[i - ti]); nv = mix; go([&]() { p.copyUnchecked(*src, m, inv); }); } } }
        }
        c.desc << op << " " << ti << "=" << show(nv) << "; "; (void)unchecked;
        if(want == REFUSE) { refused++; CHECK(threw, "not_refused", op + (t.imm ? " of an immutable field" : "")); } if(want == DONE) { CHECK(!threw, "refused", op + ": " + what); done++; }
        VP now = load(*w.pv);
        if(threw) { string d = diff(now, before); CHECK(d.empty(), "refused_but_changed", op + ": " + d); for(size_t i = 0; i < w.n.size(); i++) CHECK_EQ(w.n[i].h->n, 0, "refused_but_announced", op + " to field " + std::to_string(i)); continue; }
        if(ty->k == KStruct) { for(size_t i = 0; i < w.n.size(); i++) CHECK_EQ(w.n[i].h->n, leaves.count(i) ? 1 : 0, "struct_announced", op + ": announcements to field " + std::to_string(i)); }
        else for(size_t i = 0; i < w.n.size(); i++) { int k = w.n[i].h->n; if(i == ti) CHECK(k >= lo && k <= hi, "announced", op + ": announced " + std::to_string(k) + " times"); else CHECK_EQ(k, 0, "announced_elsewhere", op + ": announcements to field " + std::to_string(i)); }
        // the model follows in place: nodes point into it
        if(!known) { nv = load(*t.f); } std::function<void(VP&, const VP&)> in = [&](VP& a, const VP& b) { if(a->t->k == KStruct) for(size_t i = 0; i < a->kids.size(); i++) in(a->kids[i], b->kids[i]); else a = clone(b); }; in(*t.v, nv);
        string d = diff(now, w.root); CHECK(d.empty(), "value", op + ": " + d);
    }
    c.nontrivial(refused > 0 && done > 2);
}
}

// decoding an array field is announced, however its bytes arrive
PBT_TEST(decode_announces, 20000, 400000)
{
    TypeOpts o; o.depth = 1; o.nodes = 4; o.wide = false; ValOpts vo; vo.big = false; vo.maxLen = 6; TP t;
    switch(c.weighted({ 4, 1, 1, 1 })) { case 0: { int cls = (int)c.weighted({ 3, 1, 1 }); t = mkSArray(genScalarType(c), cls, cls ? 1 + c.u(6) : 0); break; } case 1: t = mkArr(KStructArr, genStruct(c, o)); break; case 2: t = mkArr(KUnionArr, genUnion(c, o)); break; default: t = mkKind(KVariantArr); }
    VP now = genValue(c, t, vo), next = genValue(c, t, vo); PVFieldPtr f = make(now); std::tr1::shared_ptr<H> h(new H); f->setPostHandler(h); bool big = c.coin(), direct = c.coin(); c.desc << show(t) << " direct " << direct << " big " << big;
    Enc e(big); e.value(next); c.nontrivial(e.b.size() > 1); In in(e.b, genCap(c), big, direct, &c); f->deserialize(&in.buf, &in); CHECK(diff(load(f), next).empty(), "decoded", diff(load(f), next)); CHECK_EQ(h->n, 1, "decode_announced", "notifications of " << show(t) << " direct " << in.directs);
    c.cover(in.directs > 0, "direct"); c.cover(in.directs == 0, "buffered");
}
