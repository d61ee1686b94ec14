// Model trees of JSON documents and an independent strict reader.
#ifndef JSON_REF_HH
#define JSON_REF_HH
#include "vf.hh"
#include "Jzon.h"
#include <cstring>
#include <string>
#include <vector>
namespace jref {
using std::string;
struct M { char t; string s; std::vector<std::pair<string, M>> k;      // t: n(ull) b(ool) d(igits) s(tring) o(bject) a(rray)
    M(char t = 'n', string s = "") : t(t), s(s) {}
    bool operator==(const M& o) const { if (t != o.t || s != o.s || k.size() != o.k.size()) return false; for (size_t i = 0; i < k.size(); i++) if ((t == 'o' && k[i].first != o.k[i].first) || !(k[i].second == o.k[i].second)) return false; return true; } };
static string show(const string& s, size_t n = 200) { string o; for (size_t i = 0; i < s.size() && i < n; i++) { unsigned char c = s[i]; if (c >= 32 && c < 127) o += c; else o += vf::fmt("<%02x>", c); } if (s.size() > n) o += "..."; return o; }
// ---- a strict reader (RFC 8259); false: not valid
struct Strict { const string& x; size_t i; bool ok; Strict(const string& x) : x(x), i(0), ok(true) {}
    void ws() { while (i < x.size() && strchr(" \t\r\n", x[i]) && x[i]) i++; }
    bool lit(const char* l) { size_t n = strlen(l); if (x.compare(i, n, l)) return false; i += n; return true; }
    bool hex(unsigned& c) { if (i + 4 > x.size()) return false; c = 0; for (int k = 0; k < 4; k++, i++) { int d = x[i]; if (d >= '0' && d <= '9') d -= '0'; else if ((d | 32) >= 'a' && (d | 32) <= 'f') d = (d | 32) - 'a' + 10; else return false; c = c * 16 + d; } return true; }
    bool str(string& o) { if (i >= x.size() || x[i] != '"') return false; i++; o.clear();
        for (;;) { if (i >= x.size()) return false; unsigned char c = x[i++]; if (c == '"') return true; if (c < 32) return false; if (c != '\\') { o += c; continue; }
            if (i >= x.size()) return false; c = x[i++]; const char* e = "\"\\/bfnrt"; const char* v = "\"\\/\b\f\n\r\t"; const char* p = c ? strchr(e, c) : 0; if (p) { o += v[p - e]; continue; }
            if (c != 'u') return false; unsigned u, l; if (!hex(u)) return false; if (u >= 0xDC00 && u < 0xE000) return false;
            if (u >= 0xD800 && u < 0xDC00) { if (x.compare(i, 2, "\\u")) return false; i += 2; if (!hex(l) || l < 0xDC00 || l > 0xDFFF) return false; u = 0x10000 + (u - 0xD800) * 1024 + (l - 0xDC00); }
            if (u < 0x80) o += (char)u; else if (u < 0x800) { o += (char)(0xC0 + u / 64); o += (char)(0x80 + u % 64); } else if (u < 0x10000) { o += (char)(0xE0 + u / 4096); o += (char)(0x80 + u / 64 % 64); o += (char)(0x80 + u % 64); } else { o += (char)(0xF0 + u / 262144); o += (char)(0x80 + u / 4096 % 64); o += (char)(0x80 + u / 64 % 64); o += (char)(0x80 + u % 64); } } }
    bool dig() { size_t b = i; while (i < x.size() && x[i] >= '0' && x[i] <= '9') i++; return i > b; }
    bool val(M& m, int depth) { if (depth > 2000) return false; ws(); if (i >= x.size()) return false; char c = x[i];
        if (c == '{') { m = M('o'); i++; ws(); if (i < x.size() && x[i] == '}') { i++; return true; } for (;;) { ws(); m.k.push_back({"", M()}); if (!str(m.k.back().first)) return false; ws(); if (i >= x.size() || x[i++] != ':') return false; if (!val(m.k.back().second, depth + 1)) return false; ws(); if (i >= x.size()) return false; if (x[i] == '}') { i++; return true; } if (x[i++] != ',') return false; } }
        if (c == '[') { m = M('a'); i++; ws(); if (i < x.size() && x[i] == ']') { i++; return true; } for (;;) { m.k.push_back({"", M()}); if (!val(m.k.back().second, depth + 1)) return false; ws(); if (i >= x.size()) return false; if (x[i] == ']') { i++; return true; } if (x[i++] != ',') return false; } }
        if (c == '"') { m = M('s'); return str(m.s); } if (c == 't') { m = M('b', "true"); return lit("true"); } if (c == 'f') { m = M('b', "false"); return lit("false"); } if (c == 'n') { m = M('n'); return lit("null"); }
        size_t b = i; if (c == '-') i++; if (i < x.size() && x[i] == '0') i++; else if (!dig()) return false; if (i < x.size() && x[i] == '.') { i++; if (!dig()) return false; } if (i < x.size() && (x[i] | 32) == 'e') { i++; if (i < x.size() && (x[i] == '+' || x[i] == '-')) i++; if (!dig()) return false; } m = M('d', x.substr(b, i - b)); return true; }
    bool doc(M& m) { if (!val(m, 1)) return false; ws(); return i == x.size(); } };
static M read(const Jzon::Node& n) {
    if (n.IsObject()) { M m('o'); const Jzon::Object& o = n.AsObject(); for (Jzon::Object::const_iterator i = o.begin(); i != o.end(); ++i) m.k.push_back({(*i).first, read((*i).second)}); VF_CHECK(m.k.size() == n.GetCount(), "count", "object says %zu members and lists %zu", n.GetCount(), m.k.size()); return m; }
    if (n.IsArray()) { M m('a'); const Jzon::Array& a = n.AsArray(); for (Jzon::Array::const_iterator i = a.begin(); i != a.end(); ++i) m.k.push_back({"", read(*i)}); VF_CHECK(m.k.size() == n.GetCount(), "count", "array says %zu elements and lists %zu", n.GetCount(), m.k.size()); return m; }
    if (n.IsNull()) { VF_CHECK(n.ToString() == "null" && n.ToInt() == 0 && !n.ToBool(), "null", "null is read as %s", n.ToString().c_str()); return M('n'); }
    if (n.IsBool()) { VF_CHECK(n.ToBool() == (n.ToString() == "true"), "bool", "boolean %s", n.ToString().c_str()); return M('b', n.ToString()); }
    return M(n.IsNumber() ? 'd' : 's', n.ToString()); }
}
using jref::M; using jref::Strict; using jref::show; using jref::read;
#endif
