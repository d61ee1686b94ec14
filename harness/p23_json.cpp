// P23: the JSON library against model trees, an independent strict reader and an independent tokeniser.
#include "vf.hh"
#include "Jzon.h"
#include <memory>
#include <limits>
#include <cmath>
#include <cfloat>
#include <climits>
#include <cstdio>
#include <cstring>
#include <unistd.h>
#include <functional>
#if defined(__SANITIZE_ADDRESS__) || (defined(__has_feature) && __has_feature(address_sanitizer))
extern "C" size_t __sanitizer_get_current_allocated_bytes();
static size_t live() { return __sanitizer_get_current_allocated_bytes(); }
#else
static size_t live() { return 0; }
#endif
#include "json_ref.hh"
using std::string; using vf::Rng;
// ---- generators
static string anyString(Rng& r) {
    string s; int n = r.chance(1, 6) ? 0 : r.range(1, r.chance(1, 20) ? 200 : 10);
    static const char* bits[] = {"\\", "\"", "\\\\", "\\\"", "/", "//", "/*", "*/", "\n", "\t", "\b", "\f", "\r", "u0041", "\\u0041", "\\n", "{", "}", "[", "]", ",", ":", " ", "\x01", "\x1f", "\x7f", "\xc3\xa9", "\xf0\x9f\x98\x80", "\xff", "null", "1", "a"};
    for (int i = 0; i < n; i++) if (r.chance(2, 3)) s += bits[r.below(sizeof bits / sizeof *bits)]; else if (r.chance(1, 12)) s += (char)r.below(256); else s += (char)('a' + r.below(26));
    return s; }
static string digits(Rng& r, int n) { string s; while (n--) s += (char)('0' + r.below(10)); return s; }
static string anyNumber(Rng& r) {      // in the JSON grammar
    string s; if (r.chance(1, 3)) s += "-"; if (r.chance(1, 4)) s += "0"; else { s += (char)('1' + r.below(9)); s += digits(r, r.range(0, r.chance(1, 8) ? 40 : 11)); }
    if (r.chance(1, 3)) s += "." + digits(r, r.range(1, 9)); if (r.chance(1, 4)) { s += r.pick({"e", "E", "e+", "E+", "e-", "E-"}); s += digits(r, r.range(1, r.chance(1, 10) ? 4 : 2)); }
    return s; }
static M anyTree(Rng& r, int depth, int& left, char force = 0) {
    char t = force ? force : depth <= 0 || left <= 0 ? r.pick({'n', 'b', 'd', 's'}) : r.pick({'n', 'b', 'd', 's', 's', 'o', 'o', 'a', 'a'}); left--;
    M m(t);
    switch (t) { case 'b': m.s = r.chance(1, 2) ? "true" : "false"; break; case 'd': m.s = anyNumber(r); break; case 's': m.s = anyString(r); break;
    case 'o': case 'a': { int n = r.range(0, r.chance(1, 10) ? 30 : 5); for (int i = 0; i < n && left > 0; i++) { string name = t == 'o' ? (r.chance(1, 2) ? string(1, 'a' + r.below(5)) : anyString(r)) : ""; m.k.push_back({name, anyTree(r, depth - 1, left)}); } break; } }
    return m; }
// ---- between models and library trees
static void fill(Jzon::Node& n, const M& m);
static void add(std::function<void(Jzon::Node&)> byNode, std::function<void(Jzon::Value)> byValue, const M& m) {
    if (m.t == 'o') { Jzon::Object o; fill(o, m); byNode(o); } else if (m.t == 'a') { Jzon::Array a; fill(a, m); byNode(a); }
    else { Jzon::Value v; fill(v, m); if (m.s.size() & 1) byNode(v); else byValue(v); } }
static void fill(Jzon::Node& n, const M& m) {
    switch (m.t) { case 'n': n.AsValue().SetNull(); break; case 'b': n.AsValue().Set(m.s == "true"); break; case 'd': n.AsValue().Set(Jzon::Value::VT_NUMBER, m.s); break; case 's': n.AsValue().Set(Jzon::Value::VT_STRING, m.s); break;
    case 'o': { Jzon::Object& o = n.AsObject(); for (auto& k : m.k) add([&](Jzon::Node& c) { o.Add(k.first, c); }, [&](Jzon::Value c) { o.Add(k.first, c); }, k.second); break; }
    case 'a': { Jzon::Array& a = n.AsArray(); for (auto& k : m.k) add([&](Jzon::Node& c) { a.Add(c); }, [&](Jzon::Value c) { a.Add(c); }, k.second); break; } } }
static Jzon::Node* fresh(char t) { if (t == 'o') return new Jzon::Object; if (t == 'a') return new Jzon::Array; return new Jzon::Value; }
static bool untouched(const Jzon::Node& n) { return n.IsValue() ? n.IsNull() : n.GetCount() == 0; }
// ---- a tokeniser: what must fail, and which values any accepted reading must hold, in which order
struct Tok { char k; string s; };      // k: { } [ ] : s w(ord)
static bool wordNumber(const string& w) { size_t i = 0, d = 0; if (i < w.size() && w[i] == '-') i++; while (i < w.size() && isdigit((unsigned char)w[i])) i++, d++; if (i < w.size() && w[i] == '.') { i++; while (i < w.size() && isdigit((unsigned char)w[i])) i++, d++; } if (!d) return false; if (i == w.size()) return true; if ((w[i] | 32) != 'e') return false; i++; if (i < w.size() && (w[i] == '+' || w[i] == '-')) i++; d = 0; while (i < w.size() && isdigit((unsigned char)w[i])) i++, d++; return d && i == w.size(); }
struct Lex { std::vector<Tok> t; bool nested; string bad; size_t depth; Lex(const string& x) : nested(false), depth(0) {
    string w; auto flush = [&] { if (w.empty()) return; string l; for (char c : w) l += (char)tolower((unsigned char)c); if (l == "null" || l == "true" || l == "false") t.push_back({'w', l}); else { if (!wordNumber(w)) bad = "unknown token " + show(w); t.push_back({'d', w}); } w.clear(); };
    for (size_t i = 0; i < x.size();) { char c = x[i], n = i + 1 < x.size() ? x[i + 1] : 0;
        if (c == '/' && n == '/') { flush(); while (i < x.size() && x[i] != '\n') i++; continue; }
        if (c == '/' && n == '*' && i + 1 < x.size()) { flush(); size_t e = x.find("*/", i + 2); if (x.find("/*", i + 2) < (e == string::npos ? x.size() : e + 1)) nested = true; i = e == string::npos ? x.size() : e + 2; continue; }
        if (strchr(" \t\r\n\f", c) && c) { flush(); i++; continue; }
        if (strchr("{}[]:,", c) && c) { flush(); t.push_back({c, ""}); i++; continue; }
        if (c == '"') { flush(); i++; string s; bool end = false; while (i < x.size()) { if (x[i] == '\\') { s += x[i++]; if (i < x.size()) s += x[i++]; continue; } if (x[i] == '"') { end = true; i++; break; } s += x[i++]; } if (!end) bad = "unterminated string"; t.push_back({'s', s}); continue; }
        w += c; i++; }
    flush();
    std::vector<char> st; bool done = false; size_t values = 0;
    for (size_t i = 0; i < t.size() && bad.empty(); i++) { char k = t[i].k; if (k == ':' || k == ',') continue; if (k == 's' && i + 1 < t.size() && t[i + 1].k == ':') { values += !st.empty(); continue; }
        if (done && st.empty()) { bad = "more after the document"; break; }
        if (k == '{' || k == '[') { values++; st.push_back(k); depth = std::max(depth, st.size()); } else if (k == '}' || k == ']') { if (st.empty() || st.back() != (k == '}' ? '{' : '[')) { bad = "mismatched bracket"; break; } st.pop_back(); if (st.empty()) done = true; }
        else { values++; if (st.empty()) done = true; } }
    if (bad.empty() && !values) bad = "no document"; if (bad.empty() && !st.empty()) bad = "unclosed bracket"; } };
static void leaves(const M& m, std::vector<std::pair<char, string>>& o) { if (m.t == 'o' || m.t == 'a') { for (auto& k : m.k) leaves(k.second, o); } else o.push_back({m.t, m.t == 'n' ? "null" : m.s}); }
static string plainOf(const string& raw, bool& known) { string q = "\"" + raw + "\"", o; Strict s(q); known = s.str(o) && s.i == q.size(); return o; }
static string spell(Rng& r, const string& s) {      // one of the ways of writing a string
    string o = "\""; for (size_t i = 0; i < s.size(); i++) { unsigned char c = s[i]; const char* e = "\"\\/\b\f\n\r\t"; const char* p = c ? strchr(e, c) : 0;
        if (c < 32 || c == '"' || c == '\\') { if (p && r.chance(2, 3)) { o += '\\'; o += "\"\\/bfnrt"[p - e]; } else o += vf::fmt(r.chance(1, 2) ? "\\u%04x" : "\\u%04X", c); }
        else if (c == '/' && r.chance(1, 2)) o += "\\/"; else if (c < 128 && r.chance(1, 15)) o += vf::fmt("\\u%04x", c);
        else if (c == 0xc3 && i + 1 < s.size() && (unsigned char)s[i + 1] == 0xa9 && r.chance(1, 2)) { o += "\\u00E9"; i++; }
        else if (c == 0xf0 && !s.compare(i, 4, "\xf0\x9f\x98\x80") && r.chance(1, 2)) { o += "\\uD83D\\ude00"; i += 3; }
        else o += c; } return o + "\""; }
static string gap(Rng& r, bool loose) { string o; while (r.chance(1, 3)) { if (loose && r.chance(1, 3)) { if (r.chance(1, 2)) { o += "/*" + string(r.pick({"", " \" ", " // ", "*", "{[", "\\\"", " x "})) + "*/"; } else o += "//" + string(r.pick({"", "\"", "*/", "/*", "]}", "'", "\\"})) + "\n"; } else o += r.pick({' ', '\t', '\n', '\r'}); } return o; }
static void text(Rng& r, const M& m, bool loose, string& o) {
    o += gap(r, loose);
    switch (m.t) { case 'n': o += loose && r.chance(1, 5) ? "NULL" : "null"; break; case 'b': case 'd': o += m.s; break; case 's': o += spell(r, m.s); break;
    case 'o': case 'a': { o += m.t == 'o' ? '{' : '['; bool first = true; if (loose && r.chance(1, 8)) o += ',';
        for (auto& k : m.k) { if (!first) { if (loose && r.chance(1, 8)) o += ' '; else { o += ','; if (loose && r.chance(1, 8)) o += ','; } } first = false; o += gap(r, loose); if (m.t == 'o') { o += spell(r, k.first) + gap(r, loose) + ":"; } text(r, k.second, loose, o); }
        if (loose && r.chance(1, 8)) o += ','; o += gap(r, loose); o += m.t == 'o' ? '}' : ']'; break; } }
    o += gap(r, loose); }
static Jzon::Format anyFormat(Rng& r) { Jzon::Format f = { r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), (unsigned)r.below(5) }; return f; }
static string write(const Jzon::Node& n, const Jzon::Format& f) { Jzon::Writer w(n, f); w.Write(); return w.GetResult(); }
static bool lean(char t, const string& x) {      // nothing of the harness allocates in here
    bool ok = false; for (int i = 6;; ) { size_t a = live(); { Jzon::Node* n = fresh(t); { Jzon::Parser p(*n, x); ok = p.Parse(); } { Jzon::Writer w(*n); w.Write(); } delete n; } size_t b = live(); if (b <= a) break; if (--i) continue; vf::fail("leak", "parsing %s and freeing the tree left %zd bytes allocated", show(x).c_str(), (ssize_t)(b - a)); break; }
    vf::count("allocations balanced"); return ok; }
struct Again { Jzon::Object root; Jzon::Parser p; Again() : p(root) {} };
// everything that must hold of one text
static void judge(Rng& r, char t, const string& x, const M* expect, Again* again) {
    std::unique_ptr<Jzon::Node> n(fresh(t)); if (r.chance(1, 4)) { if (t == 'o') n->AsObject().Add("old", 1); else if (t == 'a') n->AsArray().Add("old"); else n->AsValue().Set("old"); }
    Jzon::Parser p(*n, x); bool ok = p.Parse(); M strict; Strict s(x); bool valid = s.doc(strict); char want = strict.t == 'o' || strict.t == 'a' ? strict.t : 'v'; Lex lex(x);
    vf::count(ok ? "texts accepted" : "texts refused");
    VF_CHECK(ok == p.GetError().empty(), "error text", "parsing %s says %d with the error '%s'", show(x).c_str(), ok, p.GetError().c_str());
    if (!ok) VF_CHECK(untouched(*n), "partial tree", "parsing %s failed (%s) but left %zu members", show(x).c_str(), p.GetError().c_str(), n->GetCount());
    char nt = t == 'o' || t == 'a' ? t : 'v';
    if (valid && want == nt) { vf::count("valid texts"); VF_CHECK(ok, "valid refused", "valid text %s refused: %s", show(x).c_str(), p.GetError().c_str()); if (ok) VF_CHECK(read(*n) == strict, "wrong tree", "valid text %s read as %s", show(x).c_str(), show(write(*n, Jzon::NoFormat)).c_str()); }
    if (valid && want != nt) { vf::count("documents of another type"); VF_CHECK(!ok, "wrong type", "text %s was read into a %c", show(x).c_str(), t); }
    if (expect) { VF_CHECK(ok, "tolerated refused", "text %s refused: %s", show(x).c_str(), p.GetError().c_str()); if (ok) VF_CHECK(read(*n) == *expect, "wrong tree", "text %s read as %s", show(x).c_str(), show(write(*n, Jzon::NoFormat)).c_str()); }
    if (!lex.bad.empty() && !lex.nested) { vf::count("broken texts"); VF_CHECK(!ok, "broken accepted", "text with %s accepted: %s read as %s", lex.bad.c_str(), show(x).c_str(), show(write(*n, Jzon::NoFormat)).c_str()); }
    if (lex.depth > 2000 && !lex.nested) { vf::count("texts nested too deeply"); VF_CHECK(!ok, "too deep", "text of %zu levels accepted", lex.depth); }
    if (ok && !lex.nested) {      // conservation: each value of the text is in the tree, in the order of the text
        std::vector<std::pair<char, string>> got; leaves(read(*n), got); size_t j = 0; bool good = true;
        for (size_t i = 0; i < lex.t.size() && good; i++) { const Tok& k = lex.t[i]; if (!strchr("swd", k.k) || (i + 1 < lex.t.size() && lex.t[i + 1].k == ':')) continue; if (j >= got.size()) { good = false; break; }
            if (k.k == 's') { bool known; string pl = plainOf(k.s, known); good = got[j].first == 's' && (!known || got[j].second == pl); } else good = got[j].second == k.s && got[j].first != 's'; j++; vf::count("values accounted for"); }
        VF_CHECK(good && j == got.size(), "values", "the tree of %s has other values than the text: %s", show(x).c_str(), show(write(*n, Jzon::NoFormat)).c_str());
        string y = write(*n, anyFormat(r)); std::unique_ptr<Jzon::Node> n2(fresh(t)); Jzon::Parser p2(*n2, y); bool ok2 = p2.Parse(); VF_CHECK(ok2 && read(*n2) == read(*n), "round trip", "%s was read, written as %s and read as something else (%s)", show(x).c_str(), show(y).c_str(), p2.GetError().c_str()); vf::count("round trips"); }
    VF_CHECK(lean(t, x) == ok, "repeatable", "parsing %s twice gives different answers", show(x).c_str());
    if (again && t == 'o') { again->p.SetJson(x); bool o2 = again->p.Parse(); VF_CHECK(o2 == ok && (!ok || read(again->root) == read(*n)), "reused parser", "a parser used before reads %s differently", show(x).c_str()); vf::count("reused parsers"); }
    char c0 = 0; for (char c : x) if (!strchr(" \t\r\n\f", c) || !c) { c0 = c; break; }
    if (c0 != '/') VF_CHECK(Jzon::Node::DetermineType(x) == (c0 == '{' ? Jzon::Node::T_OBJECT : c0 == '[' ? Jzon::Node::T_ARRAY : Jzon::Node::T_VALUE), "type", "type of %s determined wrongly", show(x).c_str()); }
static string mangle(Rng& r, string x) { int n = r.range(1, 4); static const char* junk[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "\\\"", "/*", "*/", "//", "\n", " ", "-", ".", "e", "1", "tru", "null", "\\u12", "\x00", "\xff", "1-2", "+", "0x1", "/", "*"};
    while (n--) { size_t at = r.below(x.size() + 1); switch (r.below(5)) { case 0: if (at < x.size()) x.erase(at, r.range(1, 3)); break; case 1: x.insert(at, junk[r.below(sizeof junk / sizeof *junk)]); break; case 2: x.resize(at); break; case 3: if (at < x.size()) x[at] = (char)r.below(256); break; case 4: if (!x.empty()) { size_t b = r.below(x.size()); x.insert(at, x.substr(b, r.range(1, 12))); } break; } } return x; }
template <class T> static T anyBits(Rng& r) { T d; do { uint64_t b = r.u64(); if (r.chance(1, 3)) d = (T)((int64_t)b % 100000) / r.pick({1, 2, 3, 10, 100, 7}); else if (r.chance(1, 8)) d = r.pick({(T)0, (T)-0.0, std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), (T)1e6, (T)0.1, (T)1 / 3, (T)123456.7, (T)1e15}); else memcpy(&d, &b, sizeof d); } while (std::isnan(d) || std::isinf(d)); return d; }
static void numbers(Rng& r) {
    Jzon::Object o; int i = r.chance(1, 6) ? r.pick({INT_MAX, INT_MIN, 0, -1}) : (int)(r.u64() >> r.below(32)); float f = anyBits<float>(r); double d = anyBits<double>(r); o.Add("i", i); o.Add("f", f); o.Add("d", d);
    string x = write(o, anyFormat(r)); M m; Strict s(x); VF_CHECK(s.doc(m), "number text", "numbers %d %.9g %.17g are written as %s", i, f, d, x.c_str()); Jzon::Object b; Jzon::Parser p(b, x); if (!p.Parse()) { vf::fail("number text", "%s refused: %s", x.c_str(), p.GetError().c_str()); return; }
    VF_CHECK(b.Get("i").ToInt() == i, "int", "%d became %d", i, b.Get("i").ToInt()); VF_CHECK(b.Get("f").ToFloat() == f, "float", "%.9g became %.9g", f, b.Get("f").ToFloat()); VF_CHECK(b.Get("d").ToDouble() == d, "double", "%.17g became %.17g", d, b.Get("d").ToDouble()); vf::count("numbers stored", 3);
    string t = anyNumber(r); Jzon::Value v; Jzon::Parser q(v, t); if (!q.Parse()) { vf::fail("valid refused", "number %s refused", t.c_str()); return; } double e = strtod(t.c_str(), 0); VF_CHECK(v.ToString() == t, "number text", "%s became %s", t.c_str(), v.ToString().c_str());
    if (std::isfinite(e)) VF_CHECK(v.ToDouble() == e, "double", "%s is %.17g", t.c_str(), v.ToDouble()); int c = e >= INT_MAX ? INT_MAX : e <= INT_MIN ? INT_MIN : (int)e; VF_CHECK(v.ToInt() == c, "int", "%s as an integer is %d", t.c_str(), v.ToInt()); vf::count("numbers read"); }
template <class E, class F> static bool throws(F f) { try { f(); } catch (const E&) { return true; } catch (...) { return false; } return false; }
static void types(Rng& r, const M& m, const Jzon::Node& n) {      // using a node as what it is not is answered by an exception
    VF_CHECK(n.IsObject() == (m.t == 'o') && n.IsArray() == (m.t == 'a') && n.IsValue() == (m.t != 'o' && m.t != 'a') && n.IsString() == (m.t == 's') && n.IsNumber() == (m.t == 'd') && n.IsBool() == (m.t == 'b') && n.IsNull() == (m.t == 'n'), "types", "a %c reports a wrong type", m.t);
    if (m.t == 'o' || m.t == 'a') { VF_CHECK(throws<Jzon::TypeException>([&] { n.ToString(); }) && throws<Jzon::TypeException>([&] { n.ToInt(); }) && throws<Jzon::TypeException>([&] { n.AsValue(); }), "types", "container used as value");
        if (m.t == 'o') { std::vector<string> seen; for (auto& k : m.k) { bool dup = false; for (auto& q : seen) dup |= q == k.first; VF_CHECK(n.Has(k.first), "has", "member %s missing", show(k.first).c_str()); if (!dup) VF_CHECK(read(n.Get(k.first)) == k.second, "get", "member %s is another", show(k.first).c_str()); seen.push_back(k.first); } VF_CHECK(!n.Has("no such name") && throws<Jzon::NotFoundException>([&] { n.Get("no such name"); }) && throws<Jzon::TypeException>([&] { n.AsArray(); }), "has", "object has what was not put into it"); }
        else { for (size_t i = 0; i < m.k.size(); i++) VF_CHECK(read(n.Get(i)) == m.k[i].second, "get", "element %zu is another", i); VF_CHECK(throws<Jzon::NotFoundException>([&] { n.Get(m.k.size()); }) && throws<Jzon::TypeException>([&] { n.Has("x"); }), "has", "array has what was not put into it"); } }
    else { VF_CHECK(throws<Jzon::TypeException>([&] { n.Has("x"); }) && throws<Jzon::TypeException>([&] { n.AsObject(); }), "types", "value used as container"); if (m.t == 's') VF_CHECK(throws<Jzon::ValueException>([&] { n.ToInt(); }) && throws<Jzon::ValueException>([&] { n.ToBool(); }) && throws<Jzon::ValueException>([&] { n.ToDouble(); }), "types", "string used as number"); if (m.t == 'd') VF_CHECK(throws<Jzon::ValueException>([&] { n.ToBool(); }), "types", "number used as boolean"); }
    vf::count("type checks"); (void)r; }
static void edit(Rng& r, M& m, Jzon::Node& n) {      // changes to a tree
    for (int i = r.range(1, 6); i-- && !vf::failed();) { int left = 6; M c = anyTree(r, 2, left); vf::count("edits");
        if (m.t == 'o') { Jzon::Object& o = n.AsObject(); switch (r.below(5)) { case 0: add([&](Jzon::Node& q) { o.Add("new", q); }, [&](Jzon::Value q) { o.Add("new", q); }, c); m.k.push_back({"new", c}); break; case 1: { string w = m.k.empty() || r.chance(1, 5) ? "none" : m.k[r.below(m.k.size())].first; o.Remove(w); for (size_t j = 0; j < m.k.size(); j++) if (m.k[j].first == w) { m.k.erase(m.k.begin() + j); break; } break; } case 2: if (r.chance(1, 4)) { o.Clear(); m.k.clear(); } break; case 3: { Jzon::Object cp(o); Jzon::Object as; as.Add("gone", 1); as = cp; cp.Clear(); o = as; vf::count("assignments"); break; } case 4: { Jzon::Object& self = o; o = self; break; } } }
        else if (m.t == 'a') { Jzon::Array& a = n.AsArray(); switch (r.below(5)) { case 0: add([&](Jzon::Node& q) { a.Add(q); }, [&](Jzon::Value q) { a.Add(q); }, c); m.k.push_back({"", c}); break; case 1: { size_t w = r.below(m.k.size() + 2); a.Remove(w); if (w < m.k.size()) m.k.erase(m.k.begin() + w); break; } case 2: if (r.chance(1, 4)) { a.Clear(); m.k.clear(); } break; case 3: { Jzon::Array cp(a); Jzon::Array as; as.Add(1); as = cp; cp.Clear(); a = as; vf::count("assignments"); break; } case 4: { Jzon::Array& self = a; a = self; break; } } }
        VF_CHECK(read(n) == m, "edit", "tree differs after a change: %s", show(write(n, Jzon::NoFormat)).c_str()); } }
void vf_case(vf::Ctx& c) {
    Rng& r = c.rng; Again again; vf::Hash h; int rounds = 12;
    for (int k = 0; k < rounds && !vf::failed(); k++) {
        char t = r.pick({'o', 'o', 'o', 'a', 'a', 'v'}); int left = r.chance(1, 30) ? 400 : 30; M m = anyTree(r, r.range(1, 6), left, t == 'v' ? r.pick({'n', 'b', 'd', 's'}) : t);
        for (int i = 6;; ) { size_t a = live(); { std::unique_ptr<Jzon::Node> n(fresh(m.t)); fill(*n, m); } size_t b = live(); if (b <= a) break; if (--i) continue; VF_CHECK(a == b, "leak", "building and freeing a tree left %zd bytes", (ssize_t)(b - a)); break; }
        std::unique_ptr<Jzon::Node> n(fresh(m.t)); fill(*n, m); VF_CHECK(read(*n) == m, "build", "a tree is not what was put into it: %s", show(write(*n, Jzon::NoFormat)).c_str()); types(r, m, *n);
        if (r.chance(1, 3)) { size_t a = live(); size_t before = vf::failures(); M was = m; (void)a; (void)before; edit(r, m, *n); }
        string y = write(*n, anyFormat(r)); M back; Strict s(y); VF_CHECK(s.doc(back) && back == m, "writer", "a tree is written as %s", show(y).c_str()); judge(r, t, y, &m, &again);
        string x; text(r, m, false, x); judge(r, t, x, &m, &again); h.add(x); string l; text(r, m, true, l); judge(r, t, l, &m, &again);
        for (int i = 0; i < 6 && !vf::failed(); i++) { string g = mangle(r, r.pick({x, y, l})); judge(r, r.chance(5, 6) ? t : r.pick({'o', 'a', 'v'}), g, NULL, &again); h.add(g); }
        string g; int n2 = r.range(0, 14); static const char* al[] = {"{", "}", "[", "]", ",", ":", "\"", "\\", "a", "1", " ", "/", "*", "\n", "null", "\"a\"", "-", "."}; while (n2--) g += al[r.below(sizeof al / sizeof *al)]; judge(r, r.pick({'o', 'a', 'v'}), g, NULL, &again); h.add(g);
        numbers(r); }
    if (c.idx % 8 == 0) {      // depth and length
        int d = r.chance(1, 2) ? r.range(1990, 2010) : r.chance(1, 2) ? r.range(1, 3000) : 20000; string x; std::vector<char> st; string in = r.chance(1, 2) ? digits(r, 5) : "\"" + string(r.range(0, 30000), 'x') + "\""; for (int i = 0; i < d; i++) { if (r.chance(1, 2) && i) { x += "{\"a\":"; st.push_back('}'); } else { x += i ? "[" : "["; st.push_back(']'); } } if (r.chance(1, 6)) in = ""; x += in; bool cut = r.chance(1, 6); if (!cut) while (!st.empty()) { x += st.back(); st.pop_back(); }
        if (x.size() <= 65536 * 4) { std::unique_ptr<Jzon::Node> n(fresh('a')); Jzon::Parser p(*n, x); bool ok = p.Parse(), obj = in.empty() && x.find(":}") != string::npos; VF_CHECK(ok == (d <= 2000 && !cut), obj ? "depth with empty member" : "depth", "a document of %d levels%s was %s: %s", d, cut ? " cut short" : "", ok ? "accepted" : "refused", p.GetError().c_str()); if (!ok) VF_CHECK(n->GetCount() == 0, "partial tree", "deep text left a tree"); else { string y = write(*n, Jzon::NoFormat); if (!obj) VF_CHECK(y == x, "deep round trip", "a document of %d levels is written differently", d); } lean('a', x); if (d > 2000) vf::count("texts nested too deeply"); vf::count(ok ? "deep documents read" : "deep documents refused"); }
        string big = "["; int kind = r.below(3); while (big.size() < 60000) big += kind == 0 ? anyNumber(r) + "," : kind == 1 ? "{\"k\":[null]}," : spell(r, anyString(r)) + ","; big += "0]"; judge(r, 'a', big, NULL, NULL); vf::count("long documents"); }
    if (c.idx % 4 == 0) { int left = 30; M m = anyTree(r, 4, left, 'o'); Jzon::Object o; fill(o, m); string f = c.dir + "/t.json"; Jzon::FileWriter::WriteFile(f, o, anyFormat(r)); Jzon::Object b; VF_CHECK(Jzon::FileReader::ReadFile(f, b) && read(b) == m, "file", "a tree does not survive a file"); Jzon::FileReader fr(f); VF_CHECK(fr.DetermineType() == Jzon::Node::T_OBJECT && fr.GetError().empty(), "file", "file is of another type"); unlink(f.c_str()); VF_CHECK(!Jzon::FileReader::ReadFile(f, b), "file", "a file that does not exist was read"); vf::count("files"); }
    vf::distinct(h.h); if (c.idx < 3) vf::sample("mutated and random texts and trees; the parser reused for all of them"); }
void vf_init(vf::Ctx&) {} void vf_done(vf::Ctx&) {}
