// P19: PVRequestMapper and BitSetUtil
#include "gen_pvd.hpp"
#include <pv/createRequest.h>
#include <pv/bitSetUtil.h>
#include <set>
using namespace gp;
using namespace epics::pvData;
namespace {
using std::string; using std::vector;
typedef vector<bool> Bits;
BitSet toBS(const Bits& m) { BitSet b; for(size_t i = 0; i < m.size(); i++) if(m[i]) b.set((uint32_t)i); return b; }
string bs(const BitSet& b) { std::ostringstream o; o << b; return o.str(); }

// ---- selection
struct Sel { string name; bool opts; bool bad; vector<Sel> kids; Sel() : opts(false), bad(false) {} };
struct Plan { vector<Sel> sel; bool hasField, keep; string keepText; Plan() : hasField(true), keep(false) {} };
vector<Sel> genSel(Ctx& c, const TP& t, int level, bool exotic) {
    vector<size_t> ord; size_t n = t ? t->kids.size() : 0; bool all = c.chance(1, 6), chain = n == 2 && t->names[0] == "a" && t->names[1] == "b" && c.chance(15, 16); // those put together by genBase() are mostly followed down, past the limit on depth
    for(size_t i = 0; i < n; i++) if(all || (chain && i == 0) || c.chance(1, 2)) ord.push_back(i);
    if(c.chance(1, 3)) for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.u((uint32_t)i)]);
    vector<Sel> r; std::set<string> used; for(size_t i : ord) { Sel s; s.name = t->names[i]; if(s.name == "_options") continue; used.insert(s.name); s.opts = c.chance(1, 8); TP k = t->kids[i]; if(level < 8 && (k->k == KStruct ? (chain && k->kids.size()) || c.chance(2, 3) : exotic && c.chance(1, 10))) s.kids = genSel(c, k->k == KStruct ? k : TP(), level + 1, exotic); if(exotic && c.chance(1, 20)) s.bad = true; r.push_back(s); }
    if(exotic && (c.chance(1, 5) || (!t && r.empty()))) { Sel s; s.name = c.coin() ? "nope" : "absent_1"; if(!used.count(s.name) && !(t && std::find(t->names.begin(), t->names.end(), s.name) != t->names.end())) { if(c.chance(1, 3)) { Sel k; k.name = "below"; s.kids.push_back(k); } r.insert(r.begin() + c.u((uint32_t)r.size() + 1), s); } }
    return r; }
// request structure put together by hand
StructureConstPtr selType(const vector<Sel>& v) {
    StringArray n; FieldConstPtrArray f; FieldCreatePtr fc = getFieldCreate(); for(auto& s : v) { n.push_back(s.name); if(s.bad) { f.push_back(fc->createScalar(pvString)); continue; } StringArray nn; FieldConstPtrArray ff; if(s.opts) { nn.push_back("_options"); ff.push_back(fc->createStructure({string("x")}, {FieldConstPtr(fc->createScalar(pvString))})); } StructureConstPtr sub = selType(s.kids); for(size_t i = 0; i < sub->getNumberFields(); i++) { nn.push_back(sub->getFieldName(i)); ff.push_back(sub->getField(i)); } f.push_back(fc->createStructure(nn, ff)); }
    return fc->createStructure(n, f); }
PVStructurePtr byHand(const Plan& p) {
    FieldCreatePtr fc = getFieldCreate(); StringArray n; FieldConstPtrArray f; if(!p.keepText.empty()) { n.push_back("record"); StructureConstPtr o = fc->createStructure({string("keepIDs")}, {FieldConstPtr(fc->createScalar(pvString))}); f.push_back(fc->createStructure({string("_options")}, {FieldConstPtr(o)})); } if(p.hasField) { n.push_back("field"); f.push_back(selType(p.sel)); }
    PVStructurePtr r = getPVDataCreate()->createPVStructure(fc->createStructure(n, f)); if(!p.keepText.empty()) r->getSubFieldT<PVString>("record._options.keepIDs")->put(p.keepText); return r; }
string text(const vector<Sel>& v) { string s; for(auto& k : v) { if(!s.empty()) s += ","; s += k.name; if(k.opts) s += "[x=1]"; if(!k.kids.empty()) s += "{" + text(k.kids) + "}"; } return s; }
string text(const Plan& p) { string s; if(!p.keepText.empty()) s += "record[keepIDs=" + p.keepText + "]"; if(p.hasField) s += "field(" + text(p.sel) + ")"; return s; }
bool anyBad(const vector<Sel>& v) { for(auto& s : v) if(s.bad || anyBad(s.kids)) return true; return false; }
// ---- model
struct M { TP base, req, sliced; vector<int> map; /* requested offset -> base offset */ Bits mask; bool refused, warn, must; vector<string> unknown; M() : refused(false), warn(false), must(false) {} };
void allOf(const TP& t, int off, M& m) { for(size_t i = 0; i < span(t); i++) { m.map.push_back(off + (int)i); m.mask[off + i] = true; } }
TP pick(const TP& t, const vector<Sel>& v, int off, bool keep, int level, M& m) {
    vector<string> n; vector<TP> k; m.map.push_back(off); m.mask[off] = true;
    for(auto& s : v) {
        int at = off + 1; size_t i = 0; for(; i < t->kids.size() && t->names[i] != s.name; i++) at += (int)span(t->kids[i]);
        if(s.bad) { m.refused = true; continue; }
        if(i == t->kids.size()) { m.warn = m.must = true; m.unknown.push_back(s.name); continue; }
        TP f = t->kids[i]; n.push_back(s.name);
        if(level >= 5) { m.warn = true; if(!s.kids.empty() && f->k == KStruct) m.must = true; allOf(f, at, m); k.push_back(f); if(f->k != KStruct && !s.kids.empty()) m.must = true; }
        else if(f->k != KStruct || s.kids.empty()) { if(!s.kids.empty()) m.warn = m.must = true; allOf(f, at, m); k.push_back(f); }
        else k.push_back(pick(f, s.kids, at, keep, level + 1, m)); }
    return keep ? mkStruct(n, k, t->id) : mkStruct(n, k); }
M model(const TP& base, const Plan& p, bool slice) {
    M m; m.base = base; size_t N = span(base); m.mask.resize(N); bool keep = p.keepText == "true" || p.keepText == "TRUE"; if(!p.keepText.empty() && p.keepText != "true" && p.keepText != "false" && p.keepText != "TRUE") m.warn = m.must = true;
    if(!p.hasField || p.sel.empty()) { m.req = base; allOf(base, 0, m); } else m.req = pick(base, p.sel, 0, keep, 0, m);
    bool any = false; for(size_t i = 1; i < N; i++) any = any || m.mask[i]; if(!any) m.refused = true; m.sliced = m.req;
    if(!slice) { m.req = base; m.map.clear(); for(size_t i = 0; i < N; i++) m.map.push_back(m.mask[i] ? (int)i : -1); }
    return m; }
// type node at each offset
void flat(const TP& t, vector<TP>& o) { o.push_back(t); if(t->k == KStruct) for(auto& k : t->kids) flat(k, o); }
void flatV(const VP& v, vector<VP>& o) { o.push_back(v); if(v->t->k == KStruct) for(auto& k : v->kids) flatV(k, o); }
// one transfer: bits set in the source select, copies and bits go to the destination
void transfer(const M& m, bool r2b, const Bits& in, Bits& out, const VP& src, const VP& dst) {
    vector<TP> ft, tt; flat(r2b ? m.req : m.base, ft); flat(r2b ? m.base : m.req, tt); vector<VP> sv, dv; if(src) { flatV(src, sv); flatV(dst, dv); } vector<int> to(ft.size(), -1); for(size_t r = 0; r < m.map.size(); r++) if(m.map[r] >= 0) { if(r2b) to[r] = m.map[r]; else to[m.map[r]] = (int)r; }
    for(size_t i = 0; i < ft.size() && i < in.size(); i++) if(in[i]) for(size_t j = i; j < i + span(ft[i]); j++) if(to[i] >= 0 && to[j] >= 0) { if(j == i || ft[i]->k == KStruct) { if(!(j != i && false)) out[to[j]] = true; if(src && ft[j]->k != KStruct) *dv[to[j]] = *clone(sv[j]); } } }
Plan genPlan(Ctx& c, const TP& t, bool exotic) { Plan p; p.hasField = c.chance(14, 15); if(c.chance(1, 3)) { static const char* k[] = {"true", "false", "TRUE", "maybe"}; p.keepText = k[c.u(exotic ? 4 : 3)]; } p.sel = genSel(c, t, 0, exotic); return p; }
TP genBase(Ctx& c) { TypeOpts to; to.depth = 3; to.nodes = 16; TP t = genStruct(c, to); if(c.chance(1, 10)) { int n = 3 + c.u(6); for(int i = 0; i < n; i++) { t = mkStruct({"a", "b"}, {t, mkScalar(pvInt)}, c.coin() ? "id" + std::to_string(i) : string("structure")); } } return t; }
PVStructurePtr request(Ctx& c, const Plan& p) { if(!anyBad(p.sel) && c.coin()) { string s = text(p); try { return createRequest(s); } catch(std::exception& e) { FAIL("request", e.what()); } } return byHand(p); }
Bits genMask(Ctx& c, size_t n) { Bits m(n); switch(c.u(5)) { case 0: m[c.u((uint32_t)n)] = true; break; case 1: for(size_t i = 0; i < n; i++) m[i] = c.chance(1, 3); break; case 2: for(size_t i = 1; i < n; i++) m[i] = c.chance(1, 6); break; case 3: m[0] = true; break; default: for(size_t i = 1; i < n; i++) m[i] = c.coin(); } return m; }
bool leafBits(const TP& t, const Bits& in) { vector<TP> f; flat(t, f); for(size_t i = 0; i < f.size(); i++) if(in[i] && f[i]->k != KStruct) return true; return false; }
void checkState(const PVRequestMapper& mp, const M& m, bool slice) {
    CHECK(mp.base() && mp.requested(), "no_type", "no types after compute()"); string d; TP r = describe(mp.requested()); CHECK(show(r) == show(m.req) && *mp.requested() == *build(m.req), "requested", "requested " + show(r) + " expected " + show(m.req)); CHECK(*mp.base() == *build(m.base), "base", "base() differs");
    if(!slice) CHECK(mp.requested() == mp.base(), "mask_mode", "requested() is not base()"); Bits w = m.mask; w[0] = true; CHECK(mp.requestedMask() == toBS(w), "requestedMask", "requestedMask " + bs(mp.requestedMask()) + " expected " + bs(toBS(w)));
    if(m.must) CHECK(!mp.warnings().empty(), "no_warning", "no warning"); if(!m.warn) CHECK(mp.warnings().empty(), "warning", "warning " + mp.warnings()); for(auto& u : m.unknown) CHECK(mp.warnings().find("'" + u + "'") != string::npos, "warning_name", u + " not in " + mp.warnings());
    CHECK(mp.buildRequested()->getStructure() == mp.requested() && mp.buildBase()->getStructure() == mp.base(), "build", "built structures are of another type"); }
// compute, returning false when refused
bool compute(Ctx& c, PVRequestMapper& mp, const PVStructure& base, const Plan& p, const M& m, bool slice, bool fresh) {
    PVStructurePtr rq = request(c, p); string ex; try { if(fresh && c.coin()) { PVRequestMapper t(base, *rq, slice ? PVRequestMapper::Slice : PVRequestMapper::Mask); if(c.coin()) mp.swap(t); else mp = t; } else if(slice) mp.compute(base, *rq, PVRequestMapper::Slice); else if(c.coin()) mp.compute(base, *rq); else mp.compute(base, *rq, PVRequestMapper::Mask); } catch(std::runtime_error& e) { ex = e.what(); if(ex.empty()) ex = "?"; }
    if(m.refused) CHECK(!ex.empty(), "not_refused", "accepted"); else CHECK(ex.empty(), "refused", ex); return ex.empty(); }
void check1(Ctx& c, const PVRequestMapper& mp, const M& m, bool slice) {
    ValOpts vo; vo.maxLen = 3; vo.nan = true; bool r2b = c.coin(); VP bv = genValue(c, m.base, vo), rv = genValue(c, m.req, vo); PVStructurePtr b = makeStruct(bv), r = makeStruct(rv); bv = load(*b); rv = load(*r); size_t nb = span(m.base), nr = span(m.req); Bits in = genMask(c, r2b ? nr : nb), out(r2b ? nb : nr); BitSet I = toBS(in); if(c.chance(1, 6)) I.set((uint32_t)in.size() + c.u(70)); BitSet I0 = I;
    Bits pre = out; if(c.coin()) pre = genMask(c, out.size()); out = pre; BitSet O = toBS(pre), O2 = O; c.desc << "\n" << (r2b ? "request to base " : "base to request ") << bs(I);
    if(r2b) { mp.copyBaseFromRequested(*b, O, *r, I); mp.maskBaseFromRequested(O2, I); transfer(m, true, in, out, rv, bv); } else { mp.copyBaseToRequested(*b, I, *r, O); mp.maskBaseToRequested(I, O2); transfer(m, false, in, out, bv, rv); }
    CHECK(I == I0, "mask_changed", "the mask given changed"); CHECK(O == toBS(out), "wrong_mask", "mask " + bs(O) + " expected " + bs(toBS(out))); CHECK(O2 == O, "mask_only", "maskBase...() gives " + bs(O2) + ", copying " + bs(O));
    string d = diff(load(*b), bv); CHECK(d.empty(), "wrong_base", d); d = diff(load(*r), rv); CHECK(d.empty(), "wrong_requested", d); if(leafBits(r2b ? m.req : m.base, in)) c.label("leaf bits");
    if(!r2b) { BitSet rm = mp.requestedMask(); bool would = I.logical_and(rm); CHECK(would == !(toBS(pre) == O) || !toBS(pre).isEmpty(), "would_copy", "requestedMask does not tell whether anything is copied"); }
    // what was copied is independent of the source
    VP ev = load(r2b ? *b : *r); for(int i = 0; i < 3; i++) { VP sv = load(r2b ? *r : *b); if(mutate(c, sv, vo)) store(r2b ? r : b, sv); } d = diff(load(r2b ? *b : *r), ev); CHECK(d.empty(), "shared", "changing the source changed the copy: " + d); }
PBT_TEST(mapping, 25000, 800000) {
    TP t = genBase(c); bool slice = c.coin(), ex = c.coin(); Plan p = genPlan(c, t, ex); M m = model(t, p, slice); c.desc << show(t) << (slice ? " slice " : " mask ") << text(p); c.nontrivial(span(t) > 3); if(m.refused) c.label("refused");
    PVRequestMapper mp; PVStructurePtr base = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(t))); if(!compute(c, mp, *base, p, m, slice, true)) { CHECK(!mp.base() && !mp.requested() && mp.requestedMask().isEmpty(), "not_transactional", "state changed by a refused compute()"); return; }
    checkState(mp, m, slice); int n = 1 + c.u(4); for(int i = 0; i < n; i++) check1(c, mp, m, slice); }
PBT_TEST(large, 120, 4000) {
    size_t w = 64 + genLargeN(c, 900); vector<string> n; vector<TP> k; for(size_t i = 0; i < w; i++) { n.push_back("f" + std::to_string(i)); k.push_back(c.chance(1, 12) ? mkStruct({"x", "y"}, {mkScalar(pvInt), mkScalar(pvString)}) : mkScalar((ScalarType)c.u(pvString + 1))); } TP t = mkStruct(n, k); bool slice = c.coin(); Plan p; p.sel = genSel(c, t, 0, false); if(c.chance(1, 3) && p.sel.size() > 3) p.sel.erase(p.sel.begin(), p.sel.end() - 3); M m = model(t, p, slice); c.desc << w << " members" << (slice ? " slice" : " mask"); c.nontrivial(true); if(m.refused) return;
    PVRequestMapper mp; PVStructurePtr base = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(t))); if(!compute(c, mp, *base, p, m, slice, true)) return; checkState(mp, m, slice); check1(c, mp, m, slice); check1(c, mp, m, slice); }
PBT_TEST(history, 6000, 200000) {
    // one mapper used again and again, copied and swapped
    struct S { M m; bool set, slice; S() : set(false), slice(false) {} }; PVRequestMapper mp[2]; S st[2]; int n = 2 + c.u(8); c.nontrivial(n > 3);
    for(int i = 0; i < n; i++) { int k = c.u(2); c.desc << "\n" << k << ": "; switch(c.weighted({5, 1, 1, 1, 4, 1})) {
        case 0: { TP t = genBase(c); bool slice = c.coin(); Plan p = genPlan(c, t, c.chance(2, 3)); M m = model(t, p, slice); c.desc << show(t) << (slice ? " slice " : " mask ") << text(p); PVStructurePtr b = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(t))); if(compute(c, mp[k], *b, p, m, slice, false)) { st[k].m = m; st[k].set = true; st[k].slice = slice; } else c.label("refused"); break; }
        case 1: c.desc << "swap"; mp[0].swap(mp[1]); std::swap(st[0], st[1]); break;
        case 2: c.desc << "copy"; mp[k] = mp[1 - k]; st[k] = st[1 - k]; break;
        case 3: c.desc << "reset"; mp[k].reset(); st[k] = S(); break;
        case 4: if(st[k].set) check1(c, mp[k], st[k].m, st[k].slice); break;
        default: { // not a top level structure
            PVStructurePtr b = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(mkStruct({"a"}, {mkStruct({"v"}, {mkScalar(pvInt)})})))); c.desc << "inner"; bool thrown = false; try { mp[k].compute(*b->getSubFieldT<PVStructure>("a"), *createRequest("")); } catch(std::logic_error&) { thrown = true; } CHECK(thrown, "inner_accepted", "inner structure accepted as base"); break; } }
        for(int j = 0; j < 2; j++) if(st[j].set) checkState(mp[j], st[j].m, st[j].slice); else { CHECK(!mp[j].base() && !mp[j].requested() && mp[j].requestedMask().isEmpty() && mp[j].warnings().empty(), "not_empty", "state without compute()"); bool t1 = false; try { mp[j].buildRequested(); } catch(std::logic_error&) { t1 = true; } bool t2 = false; try { mp[j].buildBase(); } catch(std::logic_error&) { t2 = true; } CHECK(t1 && t2, "build_empty", "build without compute()"); } } }
// round trip through a slice: base -> requested -> another base
PBT_TEST(round_trip, 8000, 200000) {
    TP t = genBase(c); Plan p = genPlan(c, t, false); M m = model(t, p, true); if(m.refused) return; ValOpts vo; vo.maxLen = 3; VP v1 = genValue(c, t, vo), v2 = genValue(c, t, vo); PVStructurePtr a = makeStruct(v1), b = makeStruct(v2); v1 = load(*a); v2 = load(*b); c.desc << show(t) << " " << text(p); c.nontrivial(span(t) > 3);
    PVRequestMapper mp(*a, *request(c, p), c.coin() ? PVRequestMapper::Slice : PVRequestMapper::Mask); PVStructurePtr r = mp.buildRequested(); BitSet ch, back; mp.copyBaseToRequested(*a, BitSet().set(0), *r, ch); mp.copyBaseFromRequested(*b, back, *r, BitSet().set(0)); vector<VP> x, y; flatV(v1, x); flatV(v2, y); VP want = clone(v2); vector<VP> w; flatV(want, w); for(size_t i = 0; i < x.size(); i++) if(m.mask[i] && x[i]->t->k != KStruct) *w[i] = *clone(x[i]);
    string d = diff(load(*b), want); CHECK(d.empty(), "round_trip", d); Bits mk = m.mask; mk[0] = true; CHECK(back == toBS(mk), "round_trip_mask", bs(back) + " expected " + bs(toBS(mk))); }
// ---- compress
bool comp(const vector<TP>& f, Bits& b, size_t i) {
    size_t n = span(f[i]); if(n == 1 || b[i]) { for(size_t j = i + 1; j < i + n; j++) b[j] = false; return b[i]; }
    bool all = true; for(size_t j = i + 1; j < i + n; j += span(f[j])) if(!comp(f, b, j)) all = false;
    if(all) { b[i] = true; for(size_t j = i + 1; j < i + n; j++) b[j] = false; } return b[i]; }
void denotes(const vector<TP>& f, const Bits& b, Bits& leaf) { leaf.assign(f.size(), false); for(size_t i = 0; i < f.size(); i++) if(b[i]) for(size_t j = i; j < i + span(f[i]); j++) if(span(f[j]) == 1) leaf[j] = true; }
PBT_TEST(compress, 40000, 1000000) {
    TypeOpts to; to.depth = 4; to.nodes = 30; to.arrays = c.coin(); TP t = genStruct(c, to); vector<TP> f; flat(t, f); size_t n = f.size(); Bits b(n); int q = c.u(5); for(size_t i = 0; i < n; i++) b[i] = q == 0 ? c.chance(1, 4) : span(f[i]) == 1 ? (q == 1 ? c.chance(1, 3) : c.chance(9, 10)) : c.chance(1, 10);
    c.desc << show(t) << " " << bs(toBS(b)); c.nontrivial(n > 3); BitSetPtr x(new BitSet(toBS(b))); PVStructurePtr pv = getPVDataCreate()->createPVStructure(std::tr1::static_pointer_cast<const Structure>(build(t))); bool r = BitSetUtil::compress(x, pv); Bits w = b, l1, l2; comp(f, w, 0); denotes(f, b, l1); Bits got(n); for(size_t i = 0; i < n; i++) got[i] = x->get((uint32_t)i); denotes(f, got, l2);
    CHECK(l1 == l2, "denotes", "compressed to " + bs(*x) + ", which denotes other fields"); CHECK_EQ(r, !toBS(b).isEmpty(), "result", "result"); CHECK(*x == toBS(w), "form", "compressed to " + bs(*x) + " expected " + bs(toBS(w))); CHECK_EQ(BitSetUtil::compress(x, pv), r, "again", "second result"); CHECK(*x == toBS(w), "idempotent", "compressed again to " + bs(*x)); if(w != b) c.label("compressed"); }
}
