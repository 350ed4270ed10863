// P18: createRequest
#include "gen_pvd.hpp"
#include <pv/createRequest.h>
#include <chrono>
#include <set>
using namespace gp;
using namespace epics::pvData;
namespace {
using std::string; using std::vector;
struct Item { string name; vector<std::pair<string,string> > opts; bool hasOpts; vector<Item> kids; Item() : hasOpts(false) {} };
struct Request { bool bare; bool hasRecord; vector<std::pair<string,string> > record; bool has[3]; vector<Item> sec[3]; Request() : bare(false), hasRecord(false) { has[0] = has[1] = has[2] = false; } };
const char* secName[3] = {"field", "getField", "putField"};
string fresh(Ctx& c, vector<string>& used, bool opt) {
    static const char* names[] = {"value", "alarm", "timeStamp", "a", "b", "c", "display", "x1", "_q", "Long_name_of_a_field", "fields", "rec", "severity", "process", "queueSize"};
    for(int n = 0;; n++) { string s = names[c.u(15)]; if(opt && c.chance(1, 8)) s = "_options"; if(n > 3) s += std::to_string(n); if(std::find(used.begin(), used.end(), s) == used.end()) { used.push_back(s); return s; } }
}
string genVal(Ctx& c) { static const char* v[] = {"true", "false", "1", "3.14", "", "a=b", "=", "a.b", "x{y}", "{}", ".", "-", "\"q\"", "a:b/c", "\xc3\xa9", "\t", "field", "putField"}; if(c.chance(1, 6)) { string s; int n = c.u(30); for(int i = 0; i < n; i++) s += (char)('!' + c.u(90)); string r; for(char ch : s) if(!strchr(",[](){}", ch)) r += ch; return r; } return v[c.u(18)]; }
vector<std::pair<string,string> > genOpts(Ctx& c) { vector<std::pair<string,string> > o; vector<string> used; int n = 1 + c.weighted({5, 2, 1}); for(int i = 0; i < n; i++) { string k = fresh(c, used, false); o.push_back(std::make_pair(k, genVal(c))); } return o; }
vector<Item> genItems(Ctx& c, int depth, int& budget) {
    vector<Item> r; vector<string> used; int n = 1 + c.weighted({4, 3, 2, 1}); for(int i = 0; i < n && budget > 0; i++) { Item t; budget--; t.name = fresh(c, used, false); if(c.chance(1, 4)) { t.hasOpts = true; t.opts = genOpts(c); } if(depth > 0 && c.coin()) t.kids = genItems(c, depth - 1, budget); r.push_back(t); }
    return r; }
Request genRequest(Ctx& c) {
    Request r; int budget = 14; if(c.chance(1, 3)) { r.bare = true; r.has[0] = true; r.sec[0] = genItems(c, 3, budget); return r; }
    if(c.coin()) { r.hasRecord = true; if(c.chance(7, 8)) r.record = genOpts(c); } for(int i = 0; i < 3; i++) if(c.chance(i ? 1 : 2, i ? 3 : 3)) { r.has[i] = true; if(c.chance(7, 8)) r.sec[i] = genItems(c, 3, budget); }
    if(!r.hasRecord && !r.has[0] && !r.has[1] && !r.has[2]) { r.has[0] = true; r.sec[0] = genItems(c, 3, budget); }
    return r; }
// token list, so that blanks can be put between any two of them
typedef vector<string> Toks;
void opts(const vector<std::pair<string,string> >& o, Toks& t) { t.push_back("["); for(size_t i = 0; i < o.size(); i++) { if(i) t.push_back(","); t.push_back(o[i].first); t.push_back("="); t.push_back(o[i].second); } t.push_back("]"); }
void items(Ctx& c, const vector<Item>& v, Toks& t) {
    for(size_t i = 0; i < v.size(); i++) { if(i) t.push_back(","); const Item& it = v[i]; t.push_back(it.name); if(it.hasOpts) opts(it.opts, t); if(it.kids.empty()) continue;
        if(it.kids.size() == 1 && c.coin()) { t.push_back("."); items(c, it.kids, t); } else { t.push_back("{"); items(c, it.kids, t); t.push_back("}"); } } }
// a.b,c  means two items: a member with one kid rendered as a path is closed by the comma, as in the model
Toks render(Ctx& c, const Request& r) {
    Toks t; if(r.bare) { items(c, r.sec[0], t); return t; }
    vector<int> ord; if(r.hasRecord) ord.push_back(3); for(int i = 0; i < 3; i++) if(r.has[i]) ord.push_back(i); if(c.chance(1, 3)) for(size_t i = ord.size(); i > 1; i--) std::swap(ord[i - 1], ord[c.u((uint32_t)i)]);
    for(size_t k = 0; k < ord.size(); k++) { if(k && c.chance(1, 4)) t.push_back(","); int s = ord[k]; if(s == 3) { t.push_back("record"); if(r.record.empty()) { t.push_back("["); t.push_back("]"); } else opts(r.record, t); } else { t.push_back(secName[s]); t.push_back("("); items(c, r.sec[s], t); t.push_back(")"); } }
    return t; }
string join(Ctx& c, const Toks& t, bool blanks) { string s; for(auto& k : t) { if(blanks) { int n = c.weighted({5, 1, 1}); s.append(n, ' '); } s += k; } if(blanks && c.chance(1, 4)) s += "  "; return s; }
// the expected structure
VP optVal(const vector<std::pair<string,string> >& o) { vector<string> n; vector<TP> k; for(auto& p : o) { n.push_back(p.first); k.push_back(mkScalar(pvString)); } VP v = defaultValue(mkStruct(n, k)); for(size_t i = 0; i < o.size(); i++) v->kids[i]->str = o[i].second; return v; }
VP structOf(const vector<string>& n, const vector<VP>& kids) { vector<TP> k; for(auto& v : kids) k.push_back(v->t); VP v = defaultValue(mkStruct(n, k)); v->kids = kids; return v; }
VP itemVal(const Item& it) { vector<string> n; vector<VP> k; if(it.hasOpts) { n.push_back("_options"); k.push_back(optVal(it.opts)); } for(auto& s : it.kids) { n.push_back(s.name); k.push_back(itemVal(s)); } return structOf(n, k); }
VP secVal(const vector<Item>& v) { vector<string> n; vector<VP> k; for(auto& s : v) { n.push_back(s.name); k.push_back(itemVal(s)); } return structOf(n, k); }
VP model(const Request& r) { vector<string> n; vector<VP> k; if(r.hasRecord && !r.record.empty()) { n.push_back("record"); k.push_back(structOf({"_options"}, {optVal(r.record)})); } for(int i = 0; i < 3; i++) if(r.has[i]) { n.push_back(secName[i]); k.push_back(secVal(r.sec[i])); } return structOf(n, k); }
size_t count(const vector<Item>& v) { size_t n = v.size(); for(auto& i : v) n += count(i.kids) + i.opts.size(); return n; }
string noBlank(string s) { s.erase(std::remove(s.begin(), s.end(), ' '), s.end()); return s; }
bool hasSection(const string& s) { return s.find("record[") != s.npos || s.find("field(") != s.npos || s.find("getField(") != s.npos || s.find("putField(") != s.npos; }
// result of one call: a structure or a refusal
struct Res { VP v; string err; };
Res call(const string& s) {
    Res r; CreateRequest::shared_pointer cr(CreateRequest::create()); PVStructurePtr a; bool threw = false; string what;
    try { a = createRequest(s); } catch(pbt::AssertHit&) { throw; } catch(std::exception& e) { threw = true; what = e.what(); }
    CHECK(threw || a, "null", "createRequest returned NULL for " + pbt::quote(s)); PVStructurePtr b = cr->createRequest(s);
    if(threw) { CHECK(!b, "differ", "CreateRequest accepts what createRequest() refuses: " + pbt::quote(s)); CHECK(!cr->getMessage().empty(), "no_message", "no message for " + pbt::quote(s)); r.err = cr->getMessage(); }
    else { CHECK(!!b, "differ", "CreateRequest refuses what createRequest() accepts: " + pbt::quote(s)); CHECK(cr->getMessage().empty(), "message", "message " + cr->getMessage() + " for " + pbt::quote(s)); r.v = load(*a); string d = diff(load(*b), r.v); CHECK(d.empty(), "differ", d); }
    // the object is usable again
    PVStructurePtr again = cr->createRequest("field(value[a=b])"); CHECK(again && again->getSubField<PVString>("field.value._options.a") && again->getSubField<PVString>("field.value._options.a")->get() == "b" && cr->getMessage().empty(), "stale", "wrong result after " + pbt::quote(s));
    return r; }
void wellNamed(const TP& t) { if(t->k == KStruct) { std::set<string> s; for(auto& n : t->names) { CHECK(!n.empty() && s.insert(n).second, "bad_names", "empty or repeated name in " + show(t)); } } else CHECK(t->k == KScalar && t->st == pvString, "bad_type", "result contains " + show(t)); for(auto& k : t->kids) wellNamed(k); }

PBT_TEST(well_formed, 40000, 1500000) {
    Request r = genRequest(c); Toks t = render(c, r); string s = join(c, t, c.coin()); c.desc << pbt::quote(s); size_t n = count(r.sec[0]) + count(r.sec[1]) + count(r.sec[2]) + r.record.size(); c.nontrivial(n > 2);
    if(r.hasRecord) c.label("record"); Res g = call(s); CHECK(g.err.empty(), "refused", g.err); VP want = model(r);
    // blanks within values are dropped too, and there are none in the model
    string d = diff(g.v, want); CHECK(d.empty(), "wrong_structure", d); wellNamed(g.v->t);
}
// an edit which leaves nothing that could be meant
PBT_TEST(malformed, 40000, 1500000) {
    Request r = genRequest(c); Toks t = render(c, r); vector<size_t> at; string what; string s;
    auto find = [&](const char* set) { at.clear(); for(size_t i = 0; i < t.size(); i++) if(t[i].size() == 1 && strchr(set, t[i][0]) && !t[i].empty()) at.push_back(i); return !at.empty(); };
    auto isName = [&](size_t i) { return !t[i].empty() && (isalpha((unsigned char)t[i][0]) || t[i][0] == '_') && (i == 0 || t[i - 1] != "=") && t[i] != "record" && t[i] != "field" && t[i] != "getField" && t[i] != "putField" ; };
    vector<size_t> names, optn; for(size_t i = 0; i < t.size(); i++) if(isName(i)) { if(i + 1 < t.size() && t[i + 1] == "=") optn.push_back(i); else names.push_back(i); }
    switch(c.u(9)) {
    case 0: if(!find("[](){}")) return; what = "bracket removed"; t.erase(t.begin() + c.pick(at)); break;
    case 1: what = "bracket added"; t.insert(t.begin() + c.u((uint32_t)t.size() + 1), string(1, "[](){}"[c.u(6)])); break;
    case 2: if(names.empty()) return; what = "bad character in name"; { string& n = t[c.pick(names)]; static const char bad[] = "-/:*+#@!\"'\\\t\n\x7f\x80\xff$%^&;|~?<>="; n.insert(c.u((uint32_t)n.size() + 1), 1, bad[c.u(sizeof bad - 1)]); } break;
    case 3: if(names.empty()) return; what = "name starts with a digit"; { string& n = t[c.pick(names)]; n.insert(0, 1, (char)('0' + c.u(10))); } break;
    case 4: if(optn.empty()) return; what = "option without ="; { size_t i = c.pick(optn); t.erase(t.begin() + i + 1, t.begin() + i + 3); if(i && t[i - 1] == "[" && t[i].size() < 2) t[i] += "zz"; } break;
    case 5: if(optn.empty()) return; what = "option without name"; t[c.pick(optn)].clear(); break;
    case 6: if(names.empty()) return; what = "name repeated"; { size_t i = c.pick(names); string n = t[i]; t.insert(t.begin() + i, ","); t.insert(t.begin() + i, n); if(i && t[i - 1] == ".") { t.insert(t.begin() + i, "{"); size_t j = i + 4; int dep = 0; for(; j < t.size(); j++) { if(t[j].size() == 1 && strchr("[{(", t[j][0]) && t[j].size()) dep++; else if(t[j].size() == 1 && t[j].size() && strchr("]})", t[j][0])) { if(!dep) break; dep--; } else if(t[j] == "," && !dep) break; } t.insert(t.begin() + j, "}"); } } break;
    case 7: if(optn.empty()) return; what = "option repeated"; { size_t i = c.pick(optn); string n = t[i]; const char* ins[] = {"=", "v", ","}; t.insert(t.begin() + i, ins, ins + 3); t.insert(t.begin() + i, n); } break;
    default: if(!find(",{")) return; what = "empty name"; { vector<size_t> ok; int br = 0; for(size_t i = 0; i < t.size(); i++) { if(t[i] == "[") br++; else if(t[i] == "]") br--; else if(!br && i && i + 1 < t.size() && (t[i] == "," || t[i] == "{") && t[i - 1] != ")" && t[i - 1] != "]" ) ok.push_back(i); } if(ok.empty()) return; size_t i = c.pick(ok); t.insert(t.begin() + i + 1, ","); } break;
    }
    s = join(c, t, c.chance(1, 4)); c.desc << what << ": " << pbt::quote(s); c.label(what); c.nontrivial(t.size() > 3); if(noBlank(s).empty()) return;
    // brackets may still balance when the edit turned text outside of the sections, which is not looked at, into junk
    Res g = call(s); int p = 0, b = 0, k = 0; for(char ch : s) { p += (ch == '(') - (ch == ')'); b += (ch == '{') - (ch == '}'); k += (ch == '[') - (ch == ']'); }
    if(p || b || k) { CHECK(!g.err.empty(), "unbalanced_accepted", "accepted as " + show(g.v)); return; }
    if(what[0] == 'b' && what[1] == 'r') return;
    CHECK(!g.err.empty(), "malformed_accepted", what + " accepted as " + show(g.v));
}
PBT_TEST(any_text, 40000, 1500000) {
    string s; int n = c.u(30); static const char* tok[] = {"a", "b", "value", "x=y", "=", ",", ".", "{", "}", "[", "]", "(", ")", "record[", "field(", "getField(", "putField(", " ", "_options", "[a=b]", "{a,b}", "a.b", "1", "\0x"}; 
    for(int i = 0; i < n; i++) { if(c.chance(1, 20)) s += (char)c.u(256); else s += tok[c.u(24)]; }
    if(c.coin()) { // balance it
        string st; for(char ch : s) { if(ch == '{') st += '}'; if(ch == '[') st += ']'; if(ch == '(') st += ')'; if(!st.empty() && ch == st[st.size() - 1]) st.erase(st.size() - 1); } std::reverse(st.begin(), st.end()); s += st; }
    c.desc << pbt::quote(s); c.nontrivial(n > 3); Res g = call(s); int p = 0, b = 0, k = 0; for(char ch : s) { p += (ch == '(') - (ch == ')'); b += (ch == '{') - (ch == '}'); k += (ch == '[') - (ch == ']'); }
    if(!g.err.empty()) c.label("refused"); else { c.label("accepted"); wellNamed(g.v->t); CHECK(noBlank(s).empty() || !(p || b || k), "unbalanced_accepted", "accepted as " + show(g.v));
        for(auto& nm : g.v->t->names) CHECK(nm == "record" || nm == "field" || nm == "getField" || nm == "putField", "top_level", "top level member " + nm); }
    // blanks mean nothing
    string s2; for(char ch : s) { if(c.chance(1, 6)) s2 += ' '; s2 += ch; } Res g2 = call(s2); CHECK_EQ(g.err.empty(), g2.err.empty(), "blanks", "accepting " + pbt::quote(s2) + " differs"); if(g.err.empty()) { string d = diff(g2.v, g.v); CHECK(d.empty(), "blanks", d); }
    // a selection without sections is that of field()
    string nb = noBlank(s); if(!nb.empty() && !hasSection(nb) && nb.find(')') == nb.npos) { Res g3 = call("field(" + s + ")"); CHECK_EQ(g.err.empty(), g3.err.empty(), "wrap", "field(" + s + ") differs"); if(g.err.empty()) { string d = diff(g3.v, g.v); CHECK(d.empty(), "wrap", d); } }
}
PBT_TEST(large, 40, 400) {
    string s; int kind = c.u(6); int n = c.oneOf({100, 1000, 5000, 50000}); static const char* nm[] = {"list", "path", "braces", "closed braces", "options", "junk"}; c.desc << nm[kind] << " of " << n; c.label(nm[kind]); c.nontrivial(n >= 1000); if(kind == 0) n = std::min(n, 10000); size_t want = 0;
    switch(kind) { case 0: for(int i = 0; i < n; i++) { if(i) s += ","; s += "f" + std::to_string(i); } want = n; break; case 1: for(int i = 0; i < n; i++) { if(i) s += "."; s += "a"; } break; case 2: for(int i = 0; i < n; i++) s += "a{"; s += "b"; for(int i = 0; i < n; i++) s += "}"; break; case 3: s = "a"; for(int i = 0; i < n; i++) s += i & 1 ? "}" : "{"; break; case 4: n = std::min(n, 5000); s = "a["; for(int i = 0; i < n; i++) { if(i) s += ","; s += "o" + std::to_string(i) + "=" + std::to_string(i); } s += "]"; break; default: for(int i = 0; i < n; i++) s += "ab{},."[c.u(6)]; }
    auto t0 = std::chrono::steady_clock::now(); PVStructurePtr p; try { p = createRequest(s); } catch(pbt::AssertHit&) { throw; } catch(std::exception& e) { c.label("refused"); } double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); (void)dt;
    if(kind == 0 || kind == 4 || ((kind == 1 || kind == 2) && n <= 100)) CHECK(!!p, "large_refused", "refused"); if(!p) return;
    if(kind == 0) CHECK_EQ(p->getSubField<PVStructure>("field")->getPVFields().size(), want, "large_wrong", "members"); if(kind == 4) { CHECK_EQ(p->getSubField<PVStructure>("field.a._options")->getPVFields().size(), (size_t)n, "large_wrong", "options"); CHECK_EQ(p->getSubField<PVString>("field.a._options.o" + std::to_string(n - 1))->get(), std::to_string(n - 1), "large_wrong", "value"); }
    if(kind == 1 || kind == 2) { PVStructurePtr q = p->getSubField<PVStructure>("field"); int d = 0; while(!q->getPVFields().empty()) { q = std::tr1::static_pointer_cast<PVStructure>(q->getPVFields()[0]); d++; } CHECK_EQ(d, kind == 1 ? n : n + 1, "large_wrong", "depth"); }
}
}
