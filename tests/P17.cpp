// P17: any text is parsed as a model says, or rejected
#include "gen_json.hpp"
namespace {
J genAny(Ctx& c, int depth) { if(depth <= 0 || c.chance(1, 2)) return genTok(c); J j = jk(c.coin() ? J::Arr : J::Obj); size_t n = c.weighted({2, 3, 2, 1}); for(size_t i = 0; i < n; i++) { std::string k = j.k == J::Obj ? std::string(1, (char)('a' + c.u(4))) : ""; j.kids.push_back(std::make_pair(k, genAny(c, depth - 1))); } return j; }
// a document in the shape of t, now and then of another shape
J docFor(Ctx& c, const TP& t, int wrong) {
    if(wrong && c.chance(1, (uint32_t)wrong)) return genAny(c, 2);
    auto tok = [&](ScalarType st) { if(!wrong || c.chance(2, 3)) { if(st == pvString) return c.coin() ? jS(genText(c)) : wrong ? genTok(c) : jS("x"); if(st == pvBoolean) return wrong && c.coin() ? jS(c.coin() ? "true" : "maybe") : jB(c.coin()); if(st == pvFloat || st == pvDouble) return c.coin() ? jD(genDouble(c)) : jI(c.u(1000)); return c.coin() ? jI(genInt(c)) : wrong ? jD((double)c.u(100)) : jI(c.u(100)); } return genTok(c, 0); };
    switch(t->k) { case KScalar: return tok(t->st); case KBString: return jS(std::string(c.u((uint32_t)t->bound + 2), 'b'));
    case KSArray: { J j = jk(J::Arr); size_t n = t->cls == 2 && c.chance(3, 4) ? t->bound : c.u(t->cls == 1 ? (uint32_t)t->bound + 2 : 5); for(size_t i = 0; i < n && i < 40; i++) j.kids.push_back(std::make_pair(std::string(), tok(t->st))); return j; }
    case KStruct: { J j = jk(J::Obj); std::vector<size_t> ord; for(size_t i = 0; i < t->kids.size(); i++) if(c.chance(2, 3)) ord.push_back(i); for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.u((uint32_t)i)]); if(wrong && !ord.empty() && c.chance(1, 6)) ord.push_back(ord[0]); for(size_t i : ord) j.kids.push_back(std::make_pair(t->names[i], docFor(c, t->kids[i], wrong))); if(wrong && c.chance(1, 25)) j.kids.push_back(std::make_pair(c.pick(std::vector<std::string>{"nosuch", "", "a.b", ".", " "}), genTok(c))); if(wrong && !t->kids.empty() && c.chance(1, 20)) { size_t i = c.u((uint32_t)t->kids.size()); if(t->kids[i]->k == KStruct && !t->kids[i]->names.empty()) j.kids.push_back(std::make_pair(t->names[i] + "." + t->kids[i]->names[0], genTok(c))); } return j; }
    case KStructArr: { J j = jk(J::Arr); size_t n = c.u(4); for(size_t i = 0; i < n; i++) j.kids.push_back(std::make_pair(std::string(), docFor(c, t->kids[0], wrong))); return j; }
    case KUnion: case KVariant: return genTok(c, 0); default: return jk(J::Arr); } }
// ---- the model of assigning a document
enum Res { Yes, No, Either };
struct Into { Res bad = Yes; std::vector<bool>* lv; };
bool scalarTok(const J& j) { return j.k == J::Bool || j.k == J::Int || j.k == J::Dbl || j.k == J::Str; }
bool conv(const J& j, const TP& t, V& out) { PVScalarPtr f = std::tr1::static_pointer_cast<PVScalar>(getPVDataCreate()->createPVField(build(t))); try { switch(j.k) { case J::Bool: f->putFrom<epics::pvData::boolean>(j.b); break; case J::Int: f->putFrom<int64>(j.i); break; case J::Dbl: f->putFrom<double>(j.d); break; default: f->putFrom<std::string>(j.s); } } catch(std::exception&) { return false; } VP v = load(*f); out.num = v->num; out.str = v->str; out.t = t; return true; }
bool vague(const J& j, ScalarType st) { return j.k == J::Dbl && st >= pvByte && st <= pvULong && !(fabs(j.d) < 100); } // conversion of out of range doubles is not defined
Res assign(const J& j, const VP& v, std::vector<bool>* lv, size_t off) {
    const TP& t = v->t; Res r = Yes;
    switch(t->k) {
    case KScalar: case KBString: if(!scalarTok(j)) return No; if(t->k == KScalar && vague(j, t->st)) { conv(j, t, *v); if(lv) (*lv)[off] = true; return Yes; } if(!conv(j, t, *v)) return No; if(lv) (*lv)[off] = true; return Yes;
    case KSArray: { if(j.k != J::Arr) return No; VP e(new V); e->t = t; for(auto& k : j.kids) { if(!scalarTok(k.second)) return No; if(k.second.k == J::Bool ? t->st != pvBoolean && t->st != pvString : t->st == pvBoolean && k.second.k != J::Str) { r = Either; continue; } /* refused for scalars, taken as 0 or 1 in arrays */ V x; if(!conv(k.second, mkScalar(t->st), x)) return No; if(t->st == pvString) e->strs.push_back(x.str); else e->nums.push_back(x.num); } size_t n = j.kids.size(); if(t->cls == 1 && n > t->bound) return No; if(t->cls == 2 && n != t->bound) return No; *v = *e; if(lv) (*lv)[off] = true; return r; }
    case KStruct: { if(j.k != J::Obj) return No; for(auto& k : j.kids) { if(k.first.find('.') != std::string::npos) { r = Either; continue; } size_t o = off + 1, i = 0; for(; i < t->names.size() && t->names[i] != k.first; i++) o += span(t->kids[i]); if(i == t->names.size()) return r == Either ? Either : No; Res s = assign(k.second, v->kids[i], lv, o); if(s == No) return r == Either ? Either : No; if(s == Either) r = Either; } return r; }
    case KStructArr: { if(j.k != J::Arr) return No; VP e(new V); e->t = t; for(auto& k : j.kids) { VP x = defaultValue(t->kids[0]); Res s = assign(k.second, x, 0, 0); if(s == No) return r == Either ? Either : No; if(s == Either) r = Either; e->kids.push_back(x); } *v = *e; if(lv) (*lv)[off] = true; return r; }
    case KVariant: { if(!scalarTok(j)) return No; VP x(new V); TP xt = mkScalar(j.k == J::Bool ? pvBoolean : j.k == J::Int ? pvLong : j.k == J::Dbl ? pvDouble : pvString); conv(j, xt, *x); v->kids.assign(1, x); if(lv) (*lv)[off] = true; return Yes; }
    case KUnion: { if(!scalarTok(j)) return No; for(size_t i = 0; i < t->kids.size(); i++) { if(t->kids[i]->k != KScalar && t->kids[i]->k != KBString) continue; VP x(new V); if(!conv(j, t->kids[i], *x)) continue; v->sel = (int)i; v->kids.assign(1, x); if(lv) (*lv)[off] = true; return Yes; } return No; }
    default: return j.k == J::Arr && 0 ? Either : No; } }
bool dotted(const J& j) { for(auto& k : j.kids) { if(j.k == J::Obj && k.first.find('.') != std::string::npos) return true; if(dotted(k.second)) return true; } return false; }
BitSet toBS(const std::vector<bool>& m) { BitSet b; for(size_t i = 0; i < m.size(); i++) if(m[i]) b.set((uint32_t)i); return b; }
std::string bs(const BitSet& b) { std::ostringstream o; o << b; return o.str(); }
// a stream that delivers its text in whatever pieces
void checkInto(Ctx& c, const TP& t, const std::string& text) {
    J doc; bool valid = yajlRead(text, doc); ValOpts vo; vo.nulls = false; VP base = c.chance(1, 2) ? defaultValue(t) : genValue(c, t, vo); PVFieldPtr dst = make(base); base = load(*dst); VP want = clone(base); std::vector<bool> lv(span(t)); Res r = valid ? assign(doc, want, &lv, 0) : No; BitSet assigned; std::istringstream s(text); bool ok = false; std::string msg;
    try { errno = 0, parseJSON(s, *dst, &assigned); ok = true; } catch(std::exception& e) { msg = e.what(); }
    c.label(!valid ? "not JSON" : r == Yes ? "accepted" : r == No ? "refused" : "dotted name"); VP got = load(*dst); // must be sound whatever happened
    CHECK(valid || !ok, "invalid_accepted", "not JSON, but was accepted"); if(dotted(valid ? doc : J())) return; if(r == Either) return;
    if(r == No) { CHECK(!ok, "mismatch_accepted", "accepted, giving " + show(got)); return; }
    CHECK(ok, "match_refused", "refused: " + msg); std::string d = diff(got, want); CHECK(d.empty(), "wrong_value", d); CHECK(assigned == toBS(lv), "wrong_assigned", "assigned " + bs(assigned) + " expected " + bs(toBS(lv)));
}
std::string corrupt(Ctx& c, std::string s) { int n = 1 + c.weighted({5, 2, 1}); while(n--) { size_t at = s.empty() ? 0 : c.u((uint32_t)s.size()); static const char pool[] = "{}[]\",:0123456789-+.eE\\/ \n\ttfn*'ux#_aN\x01\x7f\x80\xc3\xff"; switch(c.u(6)) { case 0: s = s.substr(0, at); break; case 1: if(!s.empty()) s.erase(at, 1 + c.u(3)); break; case 2: s.insert(at, 1, pool[c.u(sizeof(pool) - 1)]); break; case 3: if(!s.empty()) s[at] = pool[c.u(sizeof(pool) - 1)]; break; case 4: { size_t l = 1 + c.u(8); s.insert(at, s.substr(s.empty() ? 0 : c.u((uint32_t)s.size()), l)); break; } default: { static const char* w[] = {"null", "true", "NaN", "Infinity", "1e999", "99999999999999999999", "{}", "[]", "\n", "/*", "//", "\\u0000", "\\ud800", "\xed\xa0\x80", "0x", "01", ",,"}; s.insert(at, w[c.u(17)]); } } } return s; }
PBT_TEST(into_shapes, 20000, 600000) { TypeOpts to; to.depth = 3; to.nodes = 10; TP t = c.chance(5, 6) ? genStruct(c, to) : genType(c, to); J doc = docFor(c, t, c.pick(std::vector<int>{0, 6, 12, 30})); std::string text = render(c, doc, c.coin()); c.desc << show(t) << " from " << pbt::quote(text); c.nontrivial(nodes(t) > 2); checkInto(c, t, text); }
PBT_TEST(into_corrupted, 20000, 600000) { TypeOpts to; to.depth = 3; to.nodes = 8; TP t = c.chance(5, 6) ? genStruct(c, to) : genType(c, to); J doc = docFor(c, t, c.coin() ? 0 : 20); std::string text = corrupt(c, render(c, doc, c.chance(1, 3))); c.desc << show(t) << " from " << pbt::quote(text); c.nontrivial(true); checkInto(c, t, text); }

// ---- inference
bool nameOk(const std::string& n) { if(n.empty() || isdigit((unsigned char)n[0])) return false; for(unsigned char ch : n) if(!(isalnum(ch) && ch < 128) && ch != '_') return false; return true; }
struct N { int k = 0; /* 0 scalar 1 array 2 structure */ J v; std::map<std::string, N> m; };
struct Inf { Res r = Yes; std::string why; void no(const std::string& w) { if(r != No) why = w; r = No; } void either(const std::string& w) { if(r == Yes) { r = Either; why = w; } } };
void infer(const J& doc, N& out, Inf& f, int depth) {
    out.k = 2; if(depth > 500) f.either("deep");
    for(auto& k : doc.kids) { const J& j = k.second; if(!nameOk(k.first)) f.no("bad name"); if(out.m.count(k.first)) f.either("duplicate"); N n; n.v = j;
        if(j.k == J::Obj) { infer(j, n, f, depth + 1); } else if(j.k == J::Null) f.no("null"); else if(j.k == J::Arr) { n.k = 1; bool mixed = false, num = true; for(auto& e : j.kids) { if(!scalarTok(e.second)) f.no("array element"); if(e.second.k != j.kids[0].second.k) mixed = true; if(e.second.k != J::Int && e.second.k != J::Dbl) num = false; } if(mixed) { if(num) f.either("int and double"); else f.no("mixed array"); } }
        out.m[k.first] = n; } }
bool tokEq(const J& j, const PVScalarPtr& f) { ScalarType st = f->getScalar()->getScalarType(); switch(j.k) { case J::Bool: return st == pvBoolean && (f->getAs<epics::pvData::boolean>() != 0) == j.b; case J::Int: return st == pvLong && f->getAs<int64>() == j.i; case J::Dbl: return st == pvDouble && sameD(f->getAs<double>(), j.d); default: return st == pvString && f->getAs<std::string>() == j.s; } }
std::string cmp(const N& n, const PVFieldPtr& f, ScalarType emptyType, const std::string& path) {
    if(n.k == 2) { PVStructurePtr s = std::tr1::dynamic_pointer_cast<PVStructure>(f); if(!s) return path + " is not a structure"; if(s->getPVFields().size() != n.m.size()) return path + " has other members"; for(auto& k : n.m) { PVFieldPtr x; const StringArray& nm = s->getStructure()->getFieldNames(); for(size_t i = 0; i < nm.size(); i++) if(nm[i] == k.first) x = s->getPVFields()[i]; if(!x) return path + " misses " + k.first; std::string d = cmp(k.second, x, emptyType, path + "." + k.first); if(!d.empty()) return d; } return ""; }
    if(n.k == 0) { PVScalarPtr s = std::tr1::dynamic_pointer_cast<PVScalar>(f); if(!s || !tokEq(n.v, s)) { std::ostringstream o; o << path << " is " << *f << " expected " << gj::show(n.v); return o.str(); } return ""; }
    PVScalarArrayPtr a = std::tr1::dynamic_pointer_cast<PVScalarArray>(f); if(!a) return path + " is not an array"; if(a->getLength() != n.v.kids.size()) return path + " has another length"; VP v = load(*a); ScalarType st = a->getScalarArray()->getElementType(); if(n.v.kids.empty()) return st == emptyType ? "" : path + ": type of an empty array depends on other members";
    for(size_t i = 0; i < n.v.kids.size(); i++) { const J& j = n.v.kids[i].second; bool ok = false; switch(j.k) { case J::Bool: ok = st == pvBoolean && (v->nums[i] & 0xff) == j.b; break; case J::Int: ok = st == pvLong && (int64_t)v->nums[i] == j.i; break; case J::Dbl: { double d; memcpy(&d, &v->nums[i], 8); ok = st == pvDouble && sameD(d, j.d); break; } default: ok = st == pvString && v->strs[i] == j.s; } if(!ok) return path + " has another element"; } return ""; }
ScalarType emptyType() { static int t = -1; if(t < 0) { std::istringstream s("{\"a\":[]}"); PVStructurePtr p; try { errno = 0, p = parseJSON(s); } catch(std::exception& e) { FAIL("empty_array", std::string("{\"a\":[]} refused: ") + e.what()); } t = p->getSubFieldT<PVScalarArray>("a")->getScalarArray()->getElementType(); } return (ScalarType)t; }
void checkInfer(Ctx& c, const std::string& text) {
    J doc; size_t depth = 0; bool valid = yajlRead(text, doc, &depth); Inf f; N n; if(!valid) f.no("not JSON"); else if(doc.k != J::Obj) f.no("not an object"); else infer(doc, n, f, 0); std::istringstream s(text); PVStructurePtr p; std::string msg; bool ok = false; try { errno = 0, p = parseJSON(s); ok = true; } catch(std::exception& e) { msg = e.what(); }
    c.label(f.r == Yes ? "accepted" : f.r == No ? "refused: " + f.why : "either: " + f.why); if(f.r == No) { std::ostringstream o; if(ok) o << *p; CHECK(!ok, "accepted", f.why + ", but accepted as " + o.str()); return; } if(f.r == Either) { if(ok) { load(*p); if(p->getStructure()->getNumberFields() == 0) CHECK(n.m.empty(), "lost_members", "nothing of it"); } return; }
    CHECK(ok, "refused", "refused: " + msg); CHECK(!!p, "null_result", "null"); std::string d = cmp(n, p, emptyType(), ""); CHECK(d.empty(), "wrong_value", d); }
J genInferable(Ctx& c, int depth, int wrong) { J j = jk(J::Obj); std::set<std::string> used; size_t n = c.weighted({1, 3, 3, 2, 1}); for(size_t i = 0; i < n; i++) { std::string k = genName(c, used); used.insert(k); if(wrong && c.chance(1, (uint32_t)wrong)) { switch(c.u(3)) { case 0: k = genText(c, 4); break; case 1: if(i) { k = j.kids[0].first; break; } default: j.kids.push_back(std::make_pair(k, genAny(c, 2))); continue; } } J v; switch(c.weighted({5, 3, depth > 0 ? 3u : 0u})) { case 0: v = genTok(c, 0); break; case 1: { v = jk(J::Arr); size_t m = c.u(5); int kind = (int)c.u(4); for(size_t q = 0; q < m; q++) v.kids.push_back(std::make_pair(std::string(), wrong && c.chance(1, (uint32_t)wrong) ? genAny(c, 1) : kind == 0 ? jI(genInt(c)) : kind == 1 ? jD(genDouble(c)) : kind == 2 ? jS(genText(c)) : jB(c.coin()))); break; } default: v = genInferable(c, depth - 1, wrong); } j.kids.push_back(std::make_pair(k, v)); } return j; }
PBT_TEST(infer_good, 12000, 400000) { J doc = genInferable(c, 3, 0); std::string text = render(c, doc, c.chance(1, 3)); c.desc << pbt::quote(text); c.nontrivial(doc.kids.size() > 1); checkInfer(c, text); }
PBT_TEST(infer_shapes, 12000, 400000) { J doc = c.chance(1, 12) ? genAny(c, 3) : genInferable(c, 3, c.pick(std::vector<int>{4, 10, 25})); std::string text = render(c, doc, c.coin()); c.desc << pbt::quote(text); c.nontrivial(doc.kids.size() > 0); checkInfer(c, text); }
PBT_TEST(infer_corrupted, 12000, 400000) { J doc = genInferable(c, 2, c.coin() ? 0 : 10); std::string text = corrupt(c, render(c, doc, c.chance(1, 3))); c.desc << pbt::quote(text); c.nontrivial(true); checkInfer(c, text); }
PBT_TEST(deep, 12, 60) { // nested far beyond any use
    static const int ns[] = {100, 1000, 5000, 20000, 100000}; int n = ns[c.u(5)] + (int)c.u(50); int shape = (int)c.u(4); c.desc << "depth " << n << " shape " << shape; c.nontrivial(n >= 1000); std::string t; for(int i = 0; i < n; i++) t += shape == 1 ? "[" : "{\"a\":"; if(shape != 3) { t += "1"; for(int i = 0; i < n; i++) t += shape == 1 ? "]" : "}"; }
    std::istringstream s(t); if(shape == 2) { PVStructurePtr p = std::tr1::static_pointer_cast<PVStructure>(make(defaultValue(mkStruct({"a"}, {mkStruct({"a"}, {mkScalar(pvInt)})})))); try { errno = 0, parseJSON(s, *p); } catch(std::exception&) { return; } FAIL("deep_accepted", "accepted"); }
    PVStructurePtr p; try { errno = 0, p = parseJSON(s); } catch(std::exception& e) { if(n <= 200 && shape == 0) FAIL("deep_refused", e.what()); c.label("refused"); return; } CHECK(shape == 0, "deep_accepted", "accepted"); int d = 0; for(PVStructurePtr q = p; q; d++) { PVFieldPtr x = q->getPVFields().at(0); q = x->getField()->getType() == structure ? std::tr1::static_pointer_cast<PVStructure>(x) : PVStructurePtr(); } CHECK_EQ(d, n, "deep_lost", "depth"); }
// ---- large documents
// parsing takes memory in proportion to the text: nothing is copied again for each element which follows
PBT_TEST(proportional, 60, 1500) {
    int what = (int)c.u(6), kind = (int)c.u(4); size_t n = 1000 + c.u(3000); bool lines = c.coin(), infer = what == 0 || what == 1 || what == 5; if(what == 4) n /= 4;
    auto el = [&](size_t i) { return kind == 0 ? std::string(i % 3 ? "true" : "false") : kind == 1 ? std::to_string(i) : kind == 2 ? std::to_string(i) + ".5" : "\"a string longer than is kept inline " + std::to_string(i) + "\""; };
    ScalarType st = kind == 0 ? pvBoolean : kind == 1 ? pvInt : kind == 2 ? pvDouble : pvString; std::string sep = lines ? ",\n" : ", ", t; std::vector<std::string> nm; std::vector<TP> kt; TP ty; for(size_t i = 0; i < n; i++) { nm.push_back("m" + std::to_string(i)); kt.push_back(mkScalar(st)); }
    switch(what) {
    case 0: case 2: t = "{\"a\":["; for(size_t i = 0; i < n; i++) t += (i ? sep : std::string()) + el(i); t += "]}"; ty = mkStruct({"a"}, {mkSArray(st)}); break; // an array
    case 1: case 3: t = "{"; for(size_t i = 0; i < n; i++) t += (i ? sep : std::string()) + "\"" + nm[i] + "\":" + el(i); t += "}"; ty = mkStruct(nm, kt); break; // many members
    case 4: t = "{\"a\":["; for(size_t i = 0; i < n; i++) t += (i ? sep : std::string()) + "{\"b\":" + el(i) + ",\"c\":[" + el(i) + "," + el(i + 1) + "]}"; t += "]}"; ty = mkStruct({"a"}, {mkArr(KStructArr, mkStruct({"b", "c"}, {mkScalar(st), mkSArray(st)}))}); break;
    default: t = "{"; for(size_t i = 0; i < n; i++) t += (i ? sep : std::string()) + "\"" + nm[i] + "\":{\"b\":" + el(i) + "}"; t += "}"; } // many small structures
    c.desc << "shape " << what << " of " << n << " " << el(0) << (lines ? " in lines" : ""); c.nontrivial(true); PVFieldPtr dst; if(!infer) dst = make(defaultValue(ty)); std::istringstream s(t); BitSet bits; PVStructurePtr p; long b0 = pbt::allocTotal();
    try { errno = 0; if(infer) p = parseJSON(s); else parseJSON(s, *dst, &bits); } catch(std::exception& e) { FAIL("large_refused", e.what()); }
    long used = pbt::allocTotal() - b0; c.label("read"); CHECK(used <= 400 * (long)t.size() + 100000, "copied_again", "reading " << t.size() << " bytes of text allocates " << used << " bytes");
    if(getenv("P17V")) fprintf(stderr, "%d %d %zu: %ld of %zu = %g\n", what, kind, n, used, t.size(), (double)used / t.size());
    if(what == 0) CHECK_EQ(p->getSubFieldT<PVArray>("a")->getLength(), n, "large_lost", "elements"); else if(what == 1 || what == 5) CHECK_EQ(p->getPVFields().size(), n, "large_lost", "members"); else if(what != 3) CHECK_EQ(std::tr1::static_pointer_cast<PVStructure>(dst)->getSubFieldT<PVArray>("a")->getLength(), n, "large_lost", "elements"); else CHECK_EQ((size_t)bits.cardinality(), n, "large_lost", "members"); }
// ---- the reading helper itself
struct Tally { std::vector<std::string> ev; size_t stopAt = (size_t)-1; bool add(const std::string& s) { ev.push_back(s); return ev.size() <= stopAt; } };
yajl_callbacks tallyCb = { [](void* x) { return (int)((Tally*)x)->add("null"); }, [](void* x, int b) { return (int)((Tally*)x)->add(b ? "true" : "false"); }, [](void* x, long long i) { return (int)((Tally*)x)->add(std::to_string(i)); }, [](void* x, double d) { char b[40]; sprintf(b, "%.17g", d); return (int)((Tally*)x)->add(b); }, 0, [](void* x, const unsigned char* s, size_t n) { return (int)((Tally*)x)->add("\"" + std::string((const char*)s, n)); }, [](void* x) { return (int)((Tally*)x)->add("{"); }, [](void* x, const unsigned char* s, size_t n) { return (int)((Tally*)x)->add(":" + std::string((const char*)s, n)); }, [](void* x) { return (int)((Tally*)x)->add("}"); }, [](void* x) { return (int)((Tally*)x)->add("["); }, [](void* x) { return (int)((Tally*)x)->add("]"); } };
struct Broken : std::streambuf { std::string s; size_t at; Broken(const std::string& t, size_t n) : s(t), at(n) { setg(&s[0], &s[0], &s[0] + at); } int_type underflow() override { throw std::runtime_error("device"); } };
PBT_TEST(helper_events, 10000, 300000) {
    J doc = genAny(c, 4); std::string text = render(c, doc); if(c.chance(1, 3)) text = corrupt(c, text); Tally a, b; c.desc << pbt::quote(text); c.nontrivial(text.size() > 10); if(c.chance(1, 5)) { a.stopAt = b.stopAt = c.u(6); c.desc << " stop at " << a.stopAt; }
    yajl_handle h = yajl_alloc(&tallyCb, 0, &a); yajl_config(h, yajl_allow_comments, 1); errno = 0; yajl_status s1 = yajl_parse(h, (const unsigned char*)text.data(), text.size()); if(s1 == yajl_status_ok) s1 = yajl_complete_parse(h); yajl_free(h);
    h = yajl_alloc(&tallyCb, 0, &b); yajl_config(h, yajl_allow_comments, 1); int res = -1; std::string msg; 
    if(c.chance(1, 10) && text.size() > 1) { Broken br(text, c.u((uint32_t)text.size())); c.desc << " device fails after " << br.at; std::istream is(&br); try { res = (errno = 0, yajl_parse_helper(is, h)); } catch(std::runtime_error& e) { msg = e.what(); } yajl_free(h); CHECK(res != 1, "io_error_ignored", "input device failed, reported as success"); return; }
    std::istringstream is(text); try { res = (errno = 0, yajl_parse_helper(is, h)); } catch(std::runtime_error& e) { msg = e.what(); } yajl_free(h);
    c.label(s1 == yajl_status_ok ? "valid" : s1 == yajl_status_client_canceled ? "cancelled" : "invalid");
    if(s1 == yajl_status_ok) { CHECK(res == 1, "valid_refused", "yajl accepts it, the helper says " + std::to_string(res) + " " + msg); CHECK(a.ev == b.ev, "wrong_events", "other events"); }
    else if(s1 == yajl_status_client_canceled) { CHECK(res == 0, "cancel_lost", "cancelled by the callback, the helper says " + std::to_string(res) + " " + msg); CHECK(a.ev == b.ev, "wrong_events", "other events"); }
    else { CHECK(res == -1, "invalid_accepted", "yajl refuses it, the helper says " + std::to_string(res)); CHECK(!msg.empty(), "no_message", "no message"); }
}
}
