// P16: printing as JSON and parsing it back
#include "gen_json.hpp"
namespace {
double fl(uint64_t n, ScalarType st) { if(st == pvFloat) { float f; uint32_t u = (uint32_t)n; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &n, 8); return d; }
J tokOf(ScalarType st, uint64_t n, const std::string& s) {
    switch(st) { case pvString: return jS(s); case pvBoolean: return jB((uint8_t)n != 0); case pvFloat: case pvDouble: return jD(fl(n, st)); case pvULong: if(n > (uint64_t)INT64_MAX) { J j = jI(0); j.s = std::to_string(n); return j; } return jI((int64_t)n);
    case pvByte: return jI((int8_t)n); case pvShort: return jI((int16_t)n); case pvInt: return jI((int32_t)n); case pvUByte: return jI((uint8_t)n); case pvUShort: return jI((uint16_t)n); case pvUInt: return jI((uint32_t)n); default: return jI((int64_t)n); } }
bool selAny(const std::vector<bool>* m, size_t off, size_t n) { if(!m) return true; return anyBit(*m, off, n); }
// what should be printed
J expect(const VP& v, const std::vector<bool>* m = 0, size_t off = 0) {
    if(!v) return jk(J::Null);
    switch(v->t->k) { case KScalar: case KBString: return tokOf(v->t->k == KBString ? pvString : v->t->st, v->num, v->str);
    case KSArray: { J j = jk(J::Arr); size_t n = v->t->st == pvString ? v->strs.size() : v->nums.size(); for(size_t i = 0; i < n; i++) j.kids.push_back(std::make_pair(std::string(), tokOf(v->t->st, v->t->st == pvString ? 0 : v->nums[i], v->t->st == pvString ? v->strs[i] : ""))); return j; }
    case KStruct: { J j = jk(J::Obj); if(m && (*m)[off]) m = 0; size_t o = off + 1; for(size_t i = 0; i < v->kids.size(); i++) { size_t n = span(v->kids[i]->t); if(selAny(m, o, n)) j.kids.push_back(std::make_pair(v->t->names[i], expect(v->kids[i], m, o))); o += n; } return j; }
    case KUnion: case KVariant: return v->kids.empty() || !v->kids[0] ? jk(J::Null) : expect(v->kids[0]);
    default: { J j = jk(J::Arr); for(auto& k : v->kids) j.kids.push_back(std::make_pair(std::string(), expect(k))); return j; } } }
bool special(const J& j) { if(j.k == J::Dbl && !std::isfinite(j.d)) return true; for(auto& k : j.kids) if(special(k.second)) return true; return false; }
JSONPrintOptions genOpts(Ctx& c) { JSONPrintOptions o; o.multiLine = c.coin(); o.ignoreUnprintable = c.coin(); o.indent = c.weighted({3, 1, 1, 1}) * 2; o.json5 = c.chance(1, 3); return o; }
// strings that JSON can carry
void textify(Ctx& c, const VP& v) { if(!v) return; if((v->t->k == KScalar && v->t->st == pvString) || v->t->k == KBString) { v->str = genText(c); if(v->t->k == KBString) while(v->str.size() > v->t->bound) v->str = v->t->bound ? std::string(1, 'x') : ""; } for(auto& s : v->strs) s = genText(c); for(auto& k : v->kids) textify(c, k); }
// leave only what the parser can take back
void tame(const VP& v, bool finite) { if(!v) return; auto fix = [&](uint64_t& n) { if(v->t->st == pvULong) n &= INT64_MAX; if(v->t->st == pvLong && n == (uint64_t)INT64_MIN) n++; /* yajl does not read it */ if(v->t->st == pvFloat && fabs(fl(n, pvFloat)) <= 1.18e-38) n = 0; /* conversion to float has no denormals */ if((v->t->st == pvFloat || v->t->st == pvDouble) && isnan(fl(n, v->t->st))) { if(v->t->st == pvFloat) n = 0x7fc00000; else n = 0x7ff8000000000000ull; } if(finite && (v->t->st == pvFloat || v->t->st == pvDouble) && !std::isfinite(fl(n, v->t->st))) n = 0; }; if(v->t->k == KScalar && v->t->st != pvString) fix(v->num); if(v->t->k == KSArray) for(auto& n : v->nums) fix(n); for(auto& k : v->kids) tame(k, finite); }
// yajl refuses infinities and the extreme 64 bit integers after a number too small for a double, or with a stale errno
bool denormal(const VP& v) { if(!v) return false; if(v->t->st == pvDouble && (v->t->k == KScalar || v->t->k == KSArray)) { auto t = [](uint64_t n) { double d = fl(n, pvDouble); return d != 0 && fabs(d) < 2.3e-308; }; if(v->t->k == KScalar && t(v->num)) return true; for(auto n : v->nums) if(t(n)) return true; } for(auto& k : v->kids) if(denormal(k)) return true; return false; }
bool extreme(const J& j) { if(j.k == J::Int && (j.i == INT64_MAX || j.i == INT64_MIN)) return true; if(j.k == J::Dbl && isinf(j.d)) return true; for(auto& k : j.kids) if(extreme(k.second)) return true; return false; }
void parse(std::istream& s, PVField& f, BitSet* b = 0) { errno = 0; parseJSON(s, f, b); }
std::vector<bool> genMask(Ctx& c, size_t n) { std::vector<bool> m(n); switch(c.u(4)) { case 0: m[c.u((uint32_t)n)] = true; break; case 1: for(size_t i = 0; i < n; i++) m[i] = i && c.chance(1, 3); break; case 2: for(size_t i = 0; i < n; i++) m[i] = i && c.chance(1, 8); break; default: if(c.chance(1, 3)) m[0] = true; else for(size_t i = 1; i < n; i++) m[i] = c.coin(); } return m; }
BitSet toBS(const std::vector<bool>& m) { BitSet b; for(size_t i = 0; i < m.size(); i++) if(m[i]) b.set((uint32_t)i); return b; }
std::string bs(const BitSet& b) { std::ostringstream o; o << b; return o.str(); }
void sameJ(const J& want, const J& got, const std::string& text, const char* key) { if(!eqJ(want, got)) FAIL(key, "printed " + pbt::quote(text) + " which reads as " + gj::show(got) + ", expected " + gj::show(want)); }
// leaves below: what parsing the printed text assigns
void leaves(const VP& v, size_t off, const std::vector<bool>* m, std::vector<bool>& out) { if(v->t->k == KStruct) { if(m && (*m)[off]) m = 0; size_t o = off + 1; for(auto& k : v->kids) { size_t n = span(k->t); if(selAny(m, o, n)) leaves(k, o, m, out); o += n; } } else out[off] = true; }
void merge(const VP& dst, const VP& src, size_t off, const std::vector<bool>& lv) { if(src->t->k == KStruct) { size_t o = off + 1; for(size_t i = 0; i < src->kids.size(); i++) { merge(dst->kids[i], src->kids[i], o, lv); o += span(src->kids[i]->t); } } else if(lv[off]) *dst = *clone(src); }

PBT_TEST(print_value, 15000, 500000) {
    TypeOpts to; to.depth = 3; to.nodes = 12; bool st = c.chance(2, 3); TP t = st ? genStruct(c, to) : genType(c, to); ValOpts vo; vo.anyBytes = false; VP v = genValue(c, t, vo); textify(c, v); PVFieldPtr f; JSONPrintOptions o = genOpts(c); bool mask = st && c.coin();
    PVStructurePtr root; uint32_t base = 0, end = 0; if(st && c.chance(1, 3)) { TypeOpts fo; fo.depth = 1; fo.nodes = 3; TP w = mkStruct({"first", "inner", "last"}, {genType(c, fo), t, mkScalar(pvInt)}); VP wv = defaultValue(w); wv->kids[1] = v; root = makeStruct(wv); f = root->getSubFieldT("inner"); base = (uint32_t)(1 + span(w->kids[0])); end = (uint32_t)span(w); c.label("sub-structure"); c.desc << "within: "; } else f = make(v);
    c.desc << show(v) << " multi=" << o.multiLine << " j5=" << o.json5; std::vector<bool> m; size_t n = span(t); if(mask) { m = genMask(c, n); c.desc << " mask=" << bs(toBS(m)); }
    J want = expect(v, mask ? &m : 0); bool sp = special(want), none = mask && !anyBit(m, 0, n); c.nontrivial(nodes(t) > 1); if(sp) c.label("nan/inf"); if(none) c.label("empty mask");
    std::ostringstream s; if(c.chance(1, 5)) s << std::hex << std::showbase; BitSet b; for(size_t i = 0; i < m.size(); i++) if(m[i]) b.set(base + (uint32_t)i); if(mask && c.chance(1, 5)) b.set((base ? end - 1 : (uint32_t)n) + c.u(70)); if(mask && base && c.chance(1, 4)) b.set(1 + c.u(base - 1)); const BitSet b0(b);
    if(sp && !o.json5) { bool thrown = false; try { if(mask) printJSON(s, static_cast<PVStructure&>(*f), b, o); else printJSON(s, *f, o); } catch(std::runtime_error&) { thrown = true; } CHECK(thrown, "nan_not_refused", "NaN or infinity printed as plain JSON: " + s.str()); return; }
    if(mask) printJSON(s, static_cast<PVStructure&>(*f), b, o); else printJSON(s, *f, o);
    std::string text = s.str(); c.desc << "\n" << pbt::quote(text);
    if(none) { CHECK(text.find_first_not_of(" \n{}") == text.npos, "empty_mask", "empty mask printed " + text); return; }
    J got; try { Reader r(text, o.json5); got = r.all(); } catch(Bad& e) { FAIL("invalid_json", e.what()); } sameJ(want, got, text, "wrong_json");
    CHECK(eq(load(f), v), "print_changed", "printing changed the value"); CHECK(b == b0, "mask_changed", "printing changed the mask");
    // lines
    if(!o.multiLine) CHECK(text.find('\n') == text.npos || text.find('\n') == text.size() - 1, "newline", "new line in single line mode");
}
PBT_TEST(round_trip, 15000, 500000) {
    TypeOpts to; to.depth = 3; to.nodes = 12; to.unions = to.variants = false; TP t = genStruct(c, to); ValOpts vo; vo.nulls = false; VP v = genValue(c, t, vo); textify(c, v); JSONPrintOptions o = genOpts(c); tame(v, !o.json5); if(denormal(v) && extreme(expect(v))) return; bool mask = c.coin(); size_t n = span(t); std::vector<bool> m; if(mask) m = genMask(c, n);
    c.desc << show(v); if(mask) c.desc << " mask=" << bs(toBS(m)); c.nontrivial(nodes(t) > 2);
    if(mask && !anyBit(m, 0, n)) return; PVStructurePtr src = makeStruct(v); std::stringstream s; if(mask) printJSON(s, *src, toBS(m), o); else printJSON(s, *src, o); std::string text = s.str();
    VP base = c.coin() ? defaultValue(t) : genValue(c, t, vo); PVStructurePtr dst = makeStruct(base); base = load(*dst); BitSet assigned; bool pre = c.chance(1, 4); if(pre) assigned.set((uint32_t)n + 3);
    try { parse(s, *dst, &assigned); } catch(std::exception& e) { FAIL("own_output_refused", std::string(e.what()) + " parsing " + pbt::quote(text)); }
    std::vector<bool> lv(n); leaves(v, 0, mask ? &m : 0, lv); VP want = clone(base); merge(want, v, 0, lv); std::string d = diff(load(*dst), want); CHECK(d.empty(), "wrong_value", "after parsing " + pbt::quote(text) + ": " + d);
    BitSet wb = toBS(lv); if(pre) wb.set((uint32_t)n + 3); CHECK(assigned == wb, "wrong_assigned", "assigned " + bs(assigned) + " expected " + bs(wb) + " after " + pbt::quote(text));
}
PBT_TEST(large, 200, 8000) {
    int kind = c.u(LKinds); Large l = genLarge(c, kind, kind == LDeep ? 100 : 30000); JSONPrintOptions o = genOpts(c); c.nontrivial(true); bool un = l.t->kids[1]->k == KUnion || l.t->kids[1]->k == KUnionArr || l.t->kids[1]->k == KVariantArr; VP v = l.v; tame(v, true); PVStructurePtr src = makeStruct(v); std::stringstream s; printJSON(s, *src, o); std::string text = s.str();
    J want = expect(v), got; try { Reader r(text, o.json5); got = r.all(); } catch(Bad& e) { FAIL("invalid_json", e.what()); } if(!eqJ(want, got)) FAIL("wrong_json", "printed " << text.size() << " characters which read otherwise: " << text.substr(0, 300)); if(un) return;
    PVStructurePtr dst = makeStruct(defaultValue(l.t)); BitSet assigned; try { parse(s, *dst, &assigned); } catch(std::exception& e) { FAIL("own_output_refused", e.what()); } std::string d = diff(load(*dst), v); CHECK(d.empty(), "wrong_value", d.substr(0, 300)); size_t n = span(l.t); std::vector<bool> lv(n); leaves(v, 0, 0, lv); CHECK(assigned == toBS(lv), "wrong_assigned", "");
}
// any rendering of a document naming some of the members, in any order
J docOf(Ctx& c, const VP& v, size_t off, std::vector<bool>& lv) {
    if(v->t->k != KStruct) { lv[off] = true; return expect(v); }
    J j = jk(J::Obj); std::vector<size_t> offs, ord; size_t o = off + 1; for(size_t i = 0; i < v->kids.size(); i++) { offs.push_back(o); o += span(v->kids[i]->t); if(c.chance(2, 3)) ord.push_back(i); } for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.u((uint32_t)i)]);
    for(size_t i : ord) j.kids.push_back(std::make_pair(v->t->names[i], docOf(c, v->kids[i], offs[i], lv))); return j; }
PBT_TEST(parse_document, 15000, 500000) {
    TypeOpts to; to.depth = 3; to.nodes = 12; to.unions = to.variants = false; TP t = genStruct(c, to); ValOpts vo; vo.nulls = false; VP v = genValue(c, t, vo), base = genValue(c, t, vo); textify(c, v); tame(v, true); if(denormal(v) && extreme(expect(v))) return; size_t n = span(t); std::vector<bool> lv(n); J doc = docOf(c, v, 0, lv); std::string text = render(c, doc);
    c.desc << show(t) << " from " << pbt::quote(text); c.nontrivial(doc.kids.size() > 1); PVStructurePtr dst = makeStruct(base); base = load(*dst); std::istringstream s(text); BitSet assigned; bool want_bits = c.chance(4, 5);
    try { if(want_bits) parse(s, *dst, &assigned); else parse(s, *dst); } catch(std::exception& e) { FAIL("document_refused", e.what()); }
    VP want = clone(base); merge(want, v, 0, lv); std::string d = diff(load(*dst), want); CHECK(d.empty(), "wrong_value", d); if(want_bits) CHECK(assigned == toBS(lv), "wrong_assigned", "assigned " + bs(assigned) + " expected " + bs(toBS(lv)));
}
PBT_TEST(parse_subfield, 4000, 100000) {
    // into a member of a larger structure: offsets are those of the whole
    TypeOpts to; to.depth = 3; to.nodes = 12; to.unions = to.variants = false; TP t = genStruct(c, to); if(t->kids.empty()) return; ValOpts vo; vo.nulls = false; VP v = genValue(c, t, vo), base = genValue(c, t, vo); textify(c, v); tame(v, true); if(denormal(v) && extreme(expect(v))) return; size_t n = span(t); size_t k = c.u((uint32_t)t->kids.size()), off = 1; for(size_t i = 0; i < k; i++) off += span(t->kids[i]);
    std::vector<bool> lv(n); J doc = docOf(c, v->kids[k], off, lv); std::string text = render(c, doc); c.desc << show(t) << " member " << k << " from " << pbt::quote(text); c.nontrivial(t->kids.size() > 1); PVStructurePtr dst = makeStruct(base); base = load(*dst); PVFieldPtr sub = dst->getPVFields()[k]; BitSet assigned; std::istringstream s(text);
    try { parse(s, *sub, &assigned); } catch(std::exception& e) { FAIL("document_refused", e.what()); }
    VP want = clone(base); merge(want, v, 0, lv); std::string d = diff(load(*dst), want); CHECK(d.empty(), "wrong_value", d); CHECK(assigned == toBS(lv), "wrong_assigned", "assigned " + bs(assigned) + " expected " + bs(toBS(lv)));
    VP now = load(*sub); J w = expect(now); if(special(w)) return; std::ostringstream os; printJSON(os, *sub); Reader r(os.str(), false); J got; try { got = r.all(); } catch(Bad& e) { FAIL("invalid_json", e.what()); } sameJ(w, got, os.str(), "wrong_json");
}
PBT_TEST(deep_chain, 60, 600) {
    int n = 1 + (int)c.u(126), arrs = 0; TP t = c.coin() ? mkScalar(pvInt) : mkSArray(pvString); for(int i = 0; i < n - 1; i++) t = c.chance(1, 6) && t->k == KStruct && arrs++ < 4 ? mkStruct({"e"}, {mkArr(KStructArr, t)}) : mkStruct({"n"}, {t}); if(t->k != KStruct) t = mkStruct({"n"}, {t});
    ValOpts vo; vo.nulls = false; vo.maxLen = 2; VP v = genValue(c, t, vo); textify(c, v); c.desc << "depth " << depth(t); c.nontrivial(n > 10); PVStructurePtr src = makeStruct(v); std::stringstream s; tame(v, true); src = makeStruct(v); if(denormal(v) && extreme(expect(v))) return; try { printJSON(s, *src); } catch(std::exception& e) { CHECK(depth(t) > 60, "deep_refused", e.what()); c.label("too deep"); return; }
    PVStructurePtr dst = makeStruct(defaultValue(t)); parse(s, *dst); std::string d = diff(load(*dst), v); CHECK(d.empty(), "wrong_value", d);
}
}
