// P22: printing values and types
#include "gen_pvd.hpp"
#include <pv/typeCast.h>
#include <pv/anyscalar.h>
#include <pv/json.h>
#include <iomanip>
#include <sstream>
#include <time.h>
using namespace gp;
using namespace epics::pvData;
namespace {
using std::string; using std::vector;
typedef PVStructure::Formatter F;
// ---- escapes: what a reader of the text does
bool printable(unsigned char ch) { return ch >= 0x20 && ch < 0x7f; }
int hexv(char h) { if(h >= '0' && h <= '9') return h - '0'; if(h >= 'A' && h <= 'F') return h - 'A' + 10; if(h >= 'a' && h <= 'f') return h - 'a' + 10; return -1; }
bool unescape(const string& s, bool csv, string& out) {
    out.clear();
    for(size_t i = 0; i < s.size(); i++) {
        if(csv && s[i] == '"') { if(i + 1 >= s.size() || s[i + 1] != '"') return false; out += '"'; i++; continue; }
        if(!csv && s[i] == '"') return false;   // would end the quoted text
        if(s[i] != '\\') { out += s[i]; continue; }
        if(++i >= s.size()) return false;
        switch(s[i]) {
        case 'a': out += '\a'; break; case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break;
        case 't': out += '\t'; break; case 'v': out += '\v'; break; case '\\': out += '\\'; break; case '\'': out += '\''; break; case '"': out += '"'; break;
        case 'x': { if(i + 2 >= s.size()) return false; int a = hexv(s[i + 1]), b = hexv(s[i + 2]); if(a < 0 || b < 0) return false; out += (char)(a * 16 + b); i += 2; break; }
        default: return false;
        }
    }
    return true;
}
bool plainWord(const string& s) { for(unsigned char ch : s) if(!printable(ch) || ch == ' ' || ch == '\\' || ch == '\'' || ch == '"') return false; return true; }
string myEscape(const string& s, bool csv) {
    string o; static const char* hx = "0123456789ABCDEF";
    for(unsigned char ch : s) {
        const char* p = strchr("a\ab\bf\fn\nr\rt\tv\v", ch); (void)p;
        switch(ch) { case '\a': o += "\\a"; break; case '\b': o += "\\b"; break; case '\f': o += "\\f"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; case '\v': o += "\\v"; break;
        case '\\': o += "\\\\"; break; case '\'': o += "\\'"; break; case '"': o += csv ? "\"\"" : "\\\""; break;
        default: if(printable(ch)) o += (char)ch; else { o += "\\x"; o += hx[ch >> 4]; o += hx[ch & 15]; } }
    }
    return o;
}
string wordText(const string& s) { return plainWord(s) ? s : "\"" + myEscape(s, false) + "\""; }
PBT_TEST(escapes, 60000, 1500000) {
    string s = genStr(c, 24, true, true); if(c.chance(1, 3)) s += (char)c.u(256); bool csv = c.coin(); c.desc << pbt::quote(s) << (csv ? " csv" : ""); c.nontrivial(!plainWord(s));
    std::ostringstream o; if(csv) o << escape(s).style(escape::CSV); else o << escape(s);
    string e = o.str(), back; for(unsigned char ch : e) CHECK(printable(ch), "unprintable", "escaped text " + pbt::quote(e));
    CHECK(unescape(e, csv, back) && back == s, "not_reversible", "escaped to " + e + " which reads " + pbt::quote(back));
    CHECK_EQ(csv ? escape(s).style(escape::CSV).str() : escape(s).str(), e, "str", "escape::str()");
    std::ostringstream q; q << maybeQuote(s); string t = q.str();
    if(t.size() >= 2 && t[0] == '"') { CHECK(t[t.size() - 1] == '"' && unescape(t.substr(1, t.size() - 2), false, back) && back == s, "quoted", "quoted as " + t); for(unsigned char ch : t) CHECK(printable(ch), "quoted_unprintable", pbt::quote(t)); }
    else CHECK(t == s && plainWord(s), "unquoted", "not quoted: " + pbt::quote(t));
}
// ---- expected text of values
struct Style { int prec; };
template<class N> string num(N n, const Style& st) { std::ostringstream o; o << std::setprecision(st.prec) << n; return o.str(); }
string scalarText(ScalarType t, uint64_t n, const Style& st) {
    switch(t) { case pvBoolean: return n & 0xff ? "true" : "false"; case pvByte: return std::to_string((int)(int8_t)n); case pvShort: return std::to_string((int16_t)n); case pvInt: return std::to_string((int32_t)n); case pvLong: return std::to_string((long long)n);
    case pvUByte: return std::to_string((unsigned)(uint8_t)n); case pvUShort: return std::to_string((uint16_t)n); case pvUInt: return std::to_string((uint32_t)n); case pvULong: return std::to_string((unsigned long long)n);
    case pvFloat: { float f; uint32_t b = (uint32_t)n; memcpy(&f, &b, 4); return num(f, st); } case pvDouble: { double d; memcpy(&d, &n, 8); return num(d, st); } default: return ""; }
}
string leafText(const VP& v, const Style& st) {
    if(v->t->k == KBString || (v->t->k == KScalar && v->t->st == pvString)) return wordText(v->str);
    if(v->t->k == KScalar) return scalarText(v->t->st, v->num, st);
    string o = "[";
    if(v->t->st == pvString) for(size_t i = 0; i < v->strs.size(); i++) { if(i) o += ", "; o += wordText(v->strs[i]); }
    else for(size_t i = 0; i < v->nums.size(); i++) { if(i) o += ","; o += scalarText(v->t->st, v->nums[i], st); }
    return o + "]";
}
string scalarId(ScalarType s) { static const char* n[] = {"boolean", "byte", "short", "int", "long", "ubyte", "ushort", "uint", "ulong", "float", "double", "string"}; return n[s]; }
string typeId(const TP& t) {
    switch(t->k) {
    case KScalar: return scalarId(t->st); case KBString: return "string(" + std::to_string(t->bound) + ")";
    case KSArray: return scalarId(t->st) + (t->cls == 0 ? "[]" : t->cls == 1 ? "<" + std::to_string(t->bound) + ">" : "[" + std::to_string(t->bound) + "]");
    case KStruct: case KUnion: return t->id; case KVariant: return "any"; case KStructArr: case KUnionArr: return typeId(t->kids[0]) + "[]"; default: return "any[]"; }
}
string ind(long n) { return string((size_t)(n < 0 ? 0 : n) * 4, ' '); }
void dump(string& o, const VP& v, const string& name, long l, const Style& st) {
    o += ind(l) + typeId(v->t) + " " + name;
    switch(v->t->k) {
    case KScalar: case KBString: case KSArray: o += " " + leafText(v, st) + "\n"; return;
    case KStruct: o += "\n"; for(size_t i = 0; i < v->kids.size(); i++) dump(o, v->kids[i], v->t->names[i], l + 1, st); return;
    case KUnion: case KVariant: o += "\n"; if(v->kids.empty() || !v->kids[0]) o += ind(l + 1) + "(none)\n"; else dump(o, v->kids[0], "", l + 1, st); return;
    default: o += "\n"; for(auto& k : v->kids) if(k) dump(o, k, "", l + 1, st); else o += ind(l + 1) + "(none)\n"; return; }
}
// ---- expected text of types
void typeFields(string& o, const TP& t, long l);
void typeDump(string& o, const TP& t, long l) {
    o += ind(l) + typeId(t);
    switch(t->k) { case KScalar: case KBString: case KSArray: return;
    case KStruct: case KUnion: o += "\n"; typeFields(o, t, l + 1); return; case KVariant: o += "\n"; return;
    case KVariantArr: o += "\n" + ind(l + 1) + "any\n"; return; default: o += "\n"; typeDump(o, t->kids[0], l + 1); return; }
}
void typeFields(string& o, const TP& t, long l) {
    for(size_t i = 0; i < t->kids.size(); i++) { const TP& k = t->kids[i]; o += ind(l) + typeId(k) + " " + t->names[i] + "\n";
        switch(k->k) { case KStruct: case KUnion: typeFields(o, k, l + 1); break; case KStructArr: case KUnionArr: case KVariantArr:
            // members of a union repeat the identity of an array
            if(t->k == KUnion) typeDump(o, k, l + 1); else if(k->k == KVariantArr) o += ind(l + 1) + "any\n"; else typeDump(o, k->kids[0], l + 1); break; default: break; } }
}
// ---- streams in a random state, which must be left as it was
struct Strm { std::ostringstream s; std::ios_base::fmtflags fl; Style st; long lvl; char fill; 
    Strm(Ctx& c) { st.prec = c.chance(1, 3) ? 17 : c.chance(1, 3) ? c.u(20) : 6; if(c.coin()) s << std::setprecision(st.prec); else { st.prec = 6; } if(c.chance(1, 4)) s << std::boolalpha; if(c.chance(1, 4)) s << std::left; if(c.chance(1, 8)) s << std::internal; lvl = c.chance(1, 3) ? c.u(4) : 0; s << format::indent_level(lvl); fill = c.chance(1, 4) ? '*' : ' '; s.fill(fill); fl = s.flags(); }
    void check(const char* what) { CHECK(s.flags() == fl, "flags_changed", string(what) + " left other format flags on the stream"); CHECK_EQ((int)s.precision(), st.prec, "precision_changed", what); CHECK(s.fill() == fill, "fill_changed", what); CHECK_EQ((int)s.width(), 0, "width_changed", what); CHECK_EQ(format::indent_value(s), lvl, "indent_changed", what); CHECK(s.good(), "stream_failed", what); }
};
string where(const string& got, const string& want) { size_t i = 0; while(i < got.size() && i < want.size() && got[i] == want[i]) i++; return "printed " + pbt::quote(got) + " expected " + pbt::quote(want) + " (differ at " + std::to_string(i) + ")"; }
void same(const string& got, const string& want, const char* key) { CHECK(got == want, key, where(got, want)); }
VP genV(Ctx& c, TP t) { ValOpts vo; vo.big = false; return genValue(c, t, vo); }
PBT_TEST(values, 20000, 400000) {
    TypeOpts to; to.depth = 4; to.nodes = 16; TP t = c.chance(2, 3) ? genStruct(c, to) : genType(c, to); VP v = genV(c, t); c.desc << show(v); c.nontrivial(nodes(t) > 3); PVFieldPtr f = make(v); Strm s(c); Strm* sp = &s;
    string want; if(t->k == KScalar || t->k == KBString || t->k == KSArray) want = leafText(v, s.st); else dump(want, v, "", s.lvl, s.st);
    switch(c.u(3)) { case 0: sp->s << *f; break; case 1: f->dumpValue(sp->s); break; default: { using std::operator<<; std::operator<<(sp->s, (const PVField*)f.get()); } }
    same(s.s.str(), want, "value"); s.check("printing a value"); string d = diff(load(f), v); CHECK(d.empty(), "print_changed", d);
    if(c.chance(1, 4)) { string b; getConvert()->getString(&b, f.get(), c.u(3)); Style st; st.prec = 6; string w; if(t->k == KScalar || t->k == KBString || t->k == KSArray) w = leafText(v, st); else dump(w, v, "", 0, st); same(b, w + "\n", "getString"); }
}
PBT_TEST(large, 200, 6000) {
    Large l = genLarge(c, 20000); PVFieldPtr f = make(l.v); c.nontrivial(true); Strm s(c); string want; dump(want, l.v, "", s.lvl, s.st); s.s << *f; same(s.s.str(), want, "value"); s.check("printing a value"); string d = diff(load(f), l.v); CHECK(d.empty(), "print_changed", "");
    Strm t(c); want.clear(); typeDump(want, l.t, t.lvl); t.s << *f->getField(); same(t.s.str(), want, "type");
}
PBT_TEST(types, 20000, 400000) {
    TypeOpts to; to.depth = 4; to.nodes = 18; TP t = genType(c, to); c.desc << show(t); c.nontrivial(nodes(t) > 3); FieldConstPtr f = buildBy(c, t); Strm s(c); string want; typeDump(want, t, s.lvl);
    if(c.coin()) s.s << *f; else std::operator<<(s.s, (const Field*)f.get()); same(s.s.str(), want, "type"); s.check("printing a type"); CHECK(show(describe(f)) == show(t), "print_changed", "type changed");
}
PBT_TEST(elements, 20000, 300000) {
    TypeOpts to; to.depth = 2; to.nodes = 8; int k = c.u(4); TP t = k == 0 ? mkSArray(genScalarType(c)) : k == 1 ? mkArr(KStructArr, genStruct(c, to)) : k == 2 ? mkArr(KUnionArr, genUnion(c, to)) : mkKind(KVariantArr); ValOpts vo; vo.big = false; vo.maxLen = 5; VP v = genValue(c, t, vo); PVFieldPtr f = make(v); Strm s(c); PVArray& a = dynamic_cast<PVArray&>(*f);
    size_t n = a.getLength(); c.desc << show(v); if(!n || c.chance(1, 10)) { size_t i = n + c.u(3); try { s.s << format::array_at(i) << a; CHECK(s.s.str().empty(), "beyond_end", "printed " + pbt::quote(s.s.str())); } catch(std::exception&) {} return; }
    size_t i = c.u((uint32_t)n); c.desc << " [" << i << "]"; c.nontrivial(n > 1); string want;
    if(k == 0) { want = t->st == pvString ? wordText(v->strs[i]) : scalarText(t->st, v->nums[i], s.st); } else if(v->kids[i]) dump(want, v->kids[i], "", s.lvl, s.st); else want = ind(s.lvl) + "(none)\n";
    if(c.coin()) s.s << format::array_at(i) << a; else a.dumpValue(s.s, i); same(s.s.str(), want, "element"); s.check("printing an element"); CHECK(eq(load(f), v), "print_changed", "array changed");
}
// ---- the formatter
VP kid(const VP& v, const string& n) { for(size_t i = 0; i < v->t->names.size(); i++) if(v->t->names[i] == n) return v->kids[i]; return VP(); }
bool isInt(const VP& v) { return v && v->t->k == KScalar && v->t->st == pvInt; }
bool isStr(const VP& v) { return v && (v->t->k == KBString || (v->t->k == KScalar && v->t->st == pvString)); }
VP numeric(const VP& v) { return v && v->t->k == KScalar && v->t->st != pvString && v->t->st != pvBoolean ? v : VP(); }
int64_t asInt(const VP& v) { if(!v) return 0; switch(v->t->st) { case pvBoolean: return (v->num & 0xff) != 0; case pvByte: return (int8_t)v->num; case pvShort: return (int16_t)v->num; case pvInt: return (int32_t)v->num; case pvUByte: return (uint8_t)v->num; case pvUShort: return (uint16_t)v->num; case pvUInt: return (uint32_t)v->num; case pvFloat: case pvDouble: { double d; if(v->t->st == pvFloat) { float f; uint32_t b = (uint32_t)v->num; memcpy(&f, &b, 4); d = f; } else memcpy(&d, &v->num, 8); if(!(d > -1 && d < 2147483648.)) throw pbt::Discard(); return (int64_t)d; } // the conversion of others is not defined
    default: return (int64_t)v->num; } }
string alarmText(const VP& a) {
    static const char* sv[] = {"", "MINOR", "MAJOR", "INVALID", "UNDEFINED"}; static const char* stt[] = {"", "DEVICE", "DRIVER", "RECORD", "DB", "CONF", "UNDEFINED", "CLIENT"};
    VP s = kid(a, "severity"), t = kid(a, "status"), m = kid(a, "message"); int64_t sev = isInt(s) ? asInt(s) : 0, sta = isInt(t) ? asInt(t) : 0; if(sev == 0) return "";
    string o = (sev > 0 && sev < 5 ? string(sv[sev]) : std::to_string(sev)) + " "; if(sta) o += (sta > 0 && sta < 8 ? string(stt[sta]) : std::to_string(sta)) + " "; if(isStr(m) && !m->str.empty()) o += m->str + " "; return o;
}
string pad(const string& s, size_t w, bool left, char fill) { if(s.size() >= w) return s; return left ? s + string(w - s.size(), fill) : string(w - s.size(), fill) + s; }
string timeText(const VP& tm, char fill) {
    VP s = numeric(kid(tm, "secondsPastEpoch")), n = numeric(kid(tm, "nanoseconds")), g = numeric(kid(tm, "userTag")); int64_t sec = asInt(s); int32_t ns = (int32_t)asInt(n); string o;
    if(sec <= 631152000 || sec - 631152000 > 0xffffffffLL) {}
    bool ok = sec > 631152000 && sec - 631152000 <= 0xffffffffLL; uint32_t e = ok ? (uint32_t)(sec - 631152000) : 0;
    if(!e && !ns) o = "<undefined>";
    else { time_t tt = (time_t)e + 631152000; struct tm b; gmtime_r(&tt, &b); char t[40]; strftime(t, sizeof t, "%Y-%m-%d %H:%M:%S.", &b); o = t; if((uint32_t)ns >= 1000000000u) o += "OVF"; else { int ms = (ns + 500000) / 1000000; if(ms > 999) ms = 999; snprintf(t, sizeof t, "%03d", ms); o += t; } }
    o = pad(o, 24, true, fill) + " "; int64_t tag = asInt(g); if(tag) o += std::to_string(tag) + " "; return o;
}
bool enumText(const VP& e, string& o) { VP i = numeric(kid(e, "index")), ch = kid(e, "choices"); if(!i || !ch || ch->t->k != KSArray || ch->t->st != pvString) return false; uint32_t x = (uint32_t)asInt(i); o = "(" + std::to_string(x) + ")"; o += x < ch->strs.size() ? " " + wordText(ch->strs[x]) : " <undefined>"; return true; }
// which field numbers are shown or highlighted; parent: the bits of enclosing structures count for all within
void nodesUnder(const VP& v, size_t off, bool above, const std::set<size_t>& bits, bool parents, std::set<size_t>& out, bool& below) {
    bool me = above || bits.count(off), any = false; if(v->t->k == KStruct) { size_t o = off + 1; for(auto& k : v->kids) { bool b = false; nodesUnder(k, o, me, bits, parents, out, b); any |= b; o += span(k->t); } } if(me || (parents && any)) out.insert(off); below = bits.count(off) || any; }
void raw(string& o, const VP& v, const string& name, size_t off, long l, const std::set<size_t>& show, const std::set<size_t>& hl, bool ansi, const Style& st, char fill) {
    if(!show.count(off)) return; bool h = ansi && hl.count(off); if(h) o += "\x1b[1m";
    if(v->t->k == KStruct) { o += ind(l) + typeId(v->t) + " " + name; if(v->t->id == "alarm_t") o += " " + alarmText(v); else if(v->t->id == "time_t") o += " " + timeText(v, fill); else if(v->t->id == "enum_t") { string e; o += " "; if(enumText(v, e)) o += e; } o += "\n"; if(h) o += "\x1b[0m";
        size_t p = off + 1; for(size_t i = 0; i < v->kids.size(); i++) { raw(o, v->kids[i], v->t->names[i], p, l + 1, show, hl, ansi, st, fill); p += span(v->kids[i]->t); } return; }
    dump(o, v, name, l, st); if(h) o += "\x1b[0m";
}
// ---- structures with alarm, time stamp and enumeration, sometimes malformed
TP leafT(Ctx& c, ScalarType s) { return c.chance(1, 12) ? (c.coin() ? mkScalar(pvString) : c.coin() ? mkSArray(pvInt) : mkScalar(pvBoolean)) : mkScalar(s); }
TP drop(Ctx& c, vector<string> n, vector<TP> k, const string& id) { for(size_t i = 0; i < n.size();) if(c.chance(1, 12)) { n.erase(n.begin() + i); k.erase(k.begin() + i); } else i++; return mkStruct(n, k, id); }
TP alarmT(Ctx& c) { return drop(c, {"severity", "status", "message"}, {leafT(c, pvInt), leafT(c, pvInt), c.chance(1, 8) ? mkBString(10) : leafT(c, pvString)}, "alarm_t"); }
TP timeT(Ctx& c) { return drop(c, {"secondsPastEpoch", "nanoseconds", "userTag"}, {leafT(c, pvLong), leafT(c, pvInt), leafT(c, pvInt)}, "time_t"); }
TP enumT(Ctx& c) { static const ScalarType is[] = {pvInt, pvInt, pvByte, pvUShort, pvULong}; return drop(c, {"index", "choices"}, {leafT(c, is[c.u(5)]), c.chance(1, 15) ? mkSArray(pvInt) : mkSArray(pvString)}, "enum_t"); }
void tune(Ctx& c, VP v) {
    if(!v) return; 
    if(v->t->k == KStruct && v->t->id == "alarm_t") { for(const char* n : {"severity", "status"}) { VP k = kid(v, n); if(isInt(k) && c.chance(5, 6)) k->num = c.u(9); } }
    if(v->t->k == KStruct && v->t->id == "time_t") { VP s = kid(v, "secondsPastEpoch"), n = kid(v, "nanoseconds"); if(s && s->t->k == KScalar && s->t->st == pvLong && c.chance(5, 6)) { switch(c.u(5)) { case 0: s->num = 631152000 + c.u(5) - 2; break; case 1: s->num = 4294967294ull + c.u(5); break; case 2: s->num = 631152000ull + 0xfffffffdull + c.u(6); break; case 3: s->num = 1500000000 + c.u(400000000); break; default: s->num = c.bits() >> 30; } } if(isInt(n) && c.chance(3, 4)) n->num = c.coin() ? c.u(1000000000) : c.chance(1, 2) ? 999999999 - c.u(1000000) : c.u(2000) * 500000ull % 1000000000; }
    if(v->t->k == KStruct && v->t->id == "enum_t") { VP i = kid(v, "index"); if(numeric(i) && c.chance(4, 5)) i->num = i->t->st == pvBoolean ? c.u(2) : c.u(5); }
    for(auto& k : v->kids) tune(c, k);
}
TP structT(Ctx& c, int d) {
    vector<string> n; vector<TP> k; std::set<string> used; int m = 1 + c.u(4); TypeOpts to; to.depth = 2; to.nodes = 5;
    for(int i = 0; i < m; i++) { string nm = genName(c, used); used.insert(nm); n.push_back(nm); switch(c.weighted({4, 1, 1, 1, d > 0 ? 3u : 0u})) { case 0: k.push_back(genType(c, to)); break; case 1: k.push_back(alarmT(c)); break; case 2: k.push_back(timeT(c)); break; case 3: k.push_back(enumT(c)); break; default: k.push_back(structT(c, d - 1)); } }
    return mkStruct(n, k, c.chance(1, 6) ? "my_t" : "structure");
}
struct Sub { VP v; size_t off; string name; }; // a structure within the whole
void subs(const VP& v, size_t off, const string& name, vector<Sub>& o) { if(v->t->k != KStruct) return; Sub s; s.v = v; s.off = off; s.name = name; o.push_back(s); size_t p = off + 1; for(size_t i = 0; i < v->kids.size(); i++) { subs(v->kids[i], p, v->t->names[i], o); p += span(v->kids[i]->t); } }
std::set<size_t> genBits(Ctx& c, size_t n) { std::set<size_t> b; int k = c.weighted({2, 4, 4, 3, 1}); if(k == 4) { for(size_t i = 0; i < n; i++) if(c.coin()) b.insert(i); } else for(int i = 0; i < k; i++) b.insert(c.u((uint32_t)n)); if(c.chance(1, 10)) b.insert(0); return b; }
BitSet toBits(Ctx& c, const std::set<size_t>& b, size_t n) { BitSet r; for(size_t i : b) r.set((uint32_t)i); if(c.chance(1, 6)) r.set((uint32_t)n + c.u(100)); return r; }
bool enclosed(const VP& root, size_t off, const std::set<size_t>& bits) { // does a bit of an enclosing structure select everything?
    vector<Sub> all; subs(root, 0, "", all); for(auto& s : all) if(s.off <= off && off < s.off + span(s.v->t) && bits.count(s.off)) return true; return false; }
PBT_TEST(formatter, 25000, 500000) {
    TP t = structT(c, 3); VP v = genV(c, t); tune(c, v); PVStructurePtr root = makeStruct(v); vector<Sub> all; subs(v, 0, "", all); const Sub& top = c.coin() ? all[0] : all[c.u((uint32_t)all.size())]; PVStructurePtr pv = top.off ? root->getSubFieldT<PVStructure>(top.off) : root; size_t n = span(v->t); Strm s(c);
    bool hasShow = c.coin(), hasHl = c.coin(); std::set<size_t> sb = genBits(c, n), hb = genBits(c, n); F::mode_t mode = (F::mode_t)c.u(3); c.desc << show(v) << " at " << top.off; if(hasShow) { c.desc << " show"; for(size_t i : sb) c.desc << " " << i; } if(hasHl) { c.desc << " highlight"; for(size_t i : hb) c.desc << " " << i; } c.desc << " mode " << mode; c.nontrivial(hasShow && hasHl && top.off); if(top.off) c.label("sub-structure");
    BitSet show = toBits(c, sb, n), hl = toBits(c, hb, n), show0(show), hl0(hl); F f(*pv); f.format(F::Raw).mode(mode); if(hasShow) f.show(show); if(hasHl) f.highlight(hl);
    std::set<size_t> S, H; bool x; if(hasShow) nodesUnder(top.v, top.off, enclosed(v, top.off, sb), sb, true, S, x); else { std::set<size_t> a; nodesUnder(top.v, top.off, true, a, true, S, x); } if(hasHl) nodesUnder(top.v, top.off, enclosed(v, top.off, hb), hb, false, H, x);
    string want; raw(want, top.v, top.name, top.off, s.lvl, S, H, mode == F::ANSI, s.st, s.fill); s.s << f; same(s.s.str(), want, "raw"); s.check("the raw formatter"); CHECK(show == show0 && hl == hl0, "mask_changed", "masks changed"); string d = diff(load(*root), v); CHECK(d.empty(), "print_changed", d);
    if(c.chance(1, 4)) { ValOpts vo; std::ostringstream a, b; JSONPrintOptions o; o.multiLine = false; o.json5 = true; bool ta = false, tb = false; BitSet all1; all1.set((uint32_t)top.off); try { F g(*pv); g.format(F::JSON); if(hasShow) g.show(show); a << g; } catch(std::runtime_error&) { ta = true; } try { printJSON(b, *pv, hasShow ? show : all1, o); b << "\n"; } catch(std::runtime_error&) { tb = true; } CHECK(ta == tb && a.str() == b.str(), "json", "formatter prints " + pbt::quote(a.str()) + " printJSON " + pbt::quote(b.str())); if(!ta && !hasShow) CHECK(a.str().size() > 2, "json_empty", "prints nothing"); }
}
// ---- the summary format
string cell(const string& s) { string e = myEscape(s, true); return s.find_first_of("\" ,\\") != s.npos ? "\"" + e + "\"" : e; }
bool table(const VP& v, const Strm& s, string& o) {
    VP val = kid(v, "value"); if(!val || val->t->k != KStruct || val->kids.empty()) return false; for(auto& k : val->kids) if(k->t->k != KSArray) return false; VP tm = kid(v, "timeStamp"), al = kid(v, "alarm"), lb = kid(v, "labels");
    if(tm || al) o += ind(s.lvl); if(tm) { if(tm->t->k == KStruct) o += timeText(tm, s.fill); o += " "; } if(al) { if(al->t->k == KStruct) o += alarmText(al); o += " "; } o += "\n";
    vector<vector<string> > col; size_t rows = (size_t)-1; bool haveL = lb && lb->t->k == KSArray && lb->t->st == pvString;
    for(size_t i = 0; i < val->kids.size(); i++) { const VP& k = val->kids[i]; vector<string> x; x.push_back(haveL && i < lb->strs.size() ? cell(lb->strs[i]) : val->t->names[i]); if(k->t->st == pvString) for(auto& t : k->strs) x.push_back(cell(t)); else for(auto n : k->nums) { string t; switch(k->t->st) { case pvFloat: { float f; uint32_t b = (uint32_t)n; memcpy(&f, &b, 4); t = castUnsafe<string>(f); break; } case pvDouble: { double d; memcpy(&d, &n, 8); t = castUnsafe<string>(d); break; } default: { Style st; st.prec = 6; t = scalarText(k->t->st, n, st); } } x.push_back(t); } rows = std::min(rows, x.size() - 1); size_t w = 0; for(auto& t : x) w = std::max(w, t.size()); for(auto& t : x) t = pad(t, w, false, s.fill); col.push_back(x); }
    for(size_t r = 0; r <= rows; r++) { o += ind(s.lvl); for(size_t i = 0; i < col.size(); i++) { if(i) o += " "; o += col[i][r]; } o += "\n"; } return true;
}
PBT_TEST(summary, 25000, 500000) {
    int kind = c.weighted({3, 3, 3, 4, 2}); TypeOpts to; to.depth = 2; to.nodes = 5; TP val; string id;
    switch(kind) { case 0: val = mkScalar(genScalarType(c)); id = "epics:nt/NTScalar:1.0"; break; case 1: val = mkSArray(genScalarType(c)); id = "epics:nt/NTScalarArray:1.0"; break; case 2: val = enumT(c); id = "epics:nt/NTEnum:1.0"; break;
    case 3: { vector<string> n; vector<TP> k; std::set<string> used; for(int i = c.u(5); i > 0; i--) { string nm = genName(c, used); used.insert(nm); n.push_back(nm); k.push_back(c.chance(1, 30) ? genType(c, to) : mkSArray(genScalarType(c))); } val = mkStruct(n, k); id = c.chance(1, 8) ? "epics:nt/NTTable:1" : "epics:nt/NTTable:1.0"; break; } default: val = genType(c, to); id = c.coin() ? "structure" : "epics:nt/NTTable:1.0"; }
    if(c.chance(1, 8)) id = "other"; vector<string> n; vector<TP> k; auto add = [&](const char* nm, TP t) { n.push_back(nm); k.push_back(t); };
    if(kind == 3 && c.chance(3, 4)) add("labels", c.chance(1, 12) ? mkSArray(pvInt) : mkSArray(pvString)); if(c.chance(19, 20)) add("value", val); if(c.coin()) add("alarm", c.chance(1, 20) ? mkScalar(pvInt) : alarmT(c)); if(c.coin()) add("timeStamp", c.chance(1, 20) ? mkScalar(pvInt) : timeT(c)); if(c.chance(1, 5)) add("extra", genType(c, to));
    VP v = genV(c, mkStruct(n, k, id)); tune(c, v); bool nested = c.chance(1, 3); VP rv = v; if(nested) { TP w = mkStruct({"first", "inner"}, {mkScalar(pvInt), v->t}); rv = defaultValue(w); rv->kids[1] = v; } PVStructurePtr root = makeStruct(rv), pv = nested ? root->getSubFieldT<PVStructure>("inner") : root; Strm s(c); c.desc << show(rv); c.nontrivial(k.size() > 1);
    string want; bool done = false; string pre = id.substr(0, id.find('.')); VP x = kid(v, "value"), tm = kid(v, "timeStamp"), al = kid(v, "alarm"); string T = tm && tm->t->k == KStruct ? timeText(tm, s.fill) : "", A = al && al->t->k == KStruct ? alarmText(al) : ""; Style six; six.prec = 6;
    if(pre == "epics:nt/NTTable:1") { done = table(v, s, want); if(done) c.label("table"); }
    else if(x) { string e; if(x->t->k == KScalar || x->t->k == KBString) { want = ind(s.lvl) + T + leafText(x, six) + " " + A + "\n"; done = true; c.label("scalar"); } else if(x->t->k == KSArray) { want = ind(s.lvl) + T + A + leafText(x, six) + "\n"; done = true; c.label("array"); } else if(x->t->k == KStruct && enumText(x, e)) { want = ind(s.lvl) + T + A + e + "\n"; done = true; c.label("enum"); } }
    if(!done) { want.clear(); std::set<size_t> S, H, none; bool b; nodesUnder(v, nested ? 2 : 0, true, none, true, S, b); raw(want, v, nested ? "inner" : "", nested ? 2 : 0, s.lvl, S, H, false, s.st, s.fill); c.label("as raw"); }
    s.s << pv->stream(); same(s.s.str(), want, "summary"); s.check("the summary formatter"); string d = diff(load(*root), rv); CHECK(d.empty(), "print_changed", d);
}
// ---- the small printers
PBT_TEST(small, 20000, 200000) {
    Strm s(c); switch(c.u(4)) {
    case 0: { ScalarType st = genScalarType(c); VP v = genV(c, mkScalar(st)); c.desc << show(v); c.nontrivial(true); PVScalarPtr p = std::tr1::static_pointer_cast<PVScalar>(make(v)); AnyScalar a; p->getAs(a); s.s << a; same(s.s.str(), st == pvString ? v->str : scalarText(st, v->num, s.st), "AnyScalar"); break; }
    case 1: { std::set<size_t> b; for(int i = c.u(8); i > 0; i--) { size_t x = c.u(200); for(int r = c.u(4); r >= 0; r--) b.insert(x++); } BitSet m; string want = "{"; for(size_t i : b) { m.set((uint32_t)i); if(want.size() > 1) want += ", "; want += std::to_string(i); } want += "}"; c.desc << want; c.nontrivial(b.size() > 1); s.s << m; same(s.s.str(), want, "BitSet"); break; }
    case 2: { static const char* n[] = {"scalar", "scalarArray", "structure", "structureArray", "union", "unionArray"}; int i = c.u(6); c.desc << n[i]; s.s << (Type)i; same(s.s.str(), n[i], "Type"); CHECK_EQ(string(TypeFunc::name((Type)i)), n[i], "TypeFunc", "name"); break; }
    default: { ScalarType st = genScalarType(c); c.desc << scalarId(st); s.s << st; same(s.s.str(), scalarId(st), "ScalarType"); CHECK_EQ(string(ScalarTypeFunc::name(st)), scalarId(st), "ScalarTypeFunc", "name"); CHECK(ScalarTypeFunc::getScalarType(scalarId(st)) == st, "getScalarType", scalarId(st)); } }
    s.check("a small printer");
}
struct Tz { Tz() { setenv("TZ", "UTC", 1); tzset(); } } tz;
}
