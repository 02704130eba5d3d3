// C24: every short string over alphabets of special characters (and every byte) through the text helpers, against
// independently written references.
#include "seq.h"
#include <sstream>
#include <stdexcept>
#include <ctype.h>
#include <sofa/pbrpc/string_utils.h>
#include <sofa/pbrpc/ascii.h>
#include <sofa/pbrpc/bin2ascii.h>
using namespace seq;
using sofa::pbrpc::StringUtils;
using sofa::pbrpc::Ascii;
typedef std::string S;
// A string of up to max characters of the alphabet.
static S word(const char* al, int n, int max, const char* label) { S s; for (int i = 0; i < max; ++i) { int k = pick(n + 1, label); if (!k) break; s += al[k - 1]; } return s; }
#define WORD(al, max, label) word(al, sizeof(al) - 1, max, label)
static S bytes(int max, const char* label) { S s; for (int i = 0; i < max; ++i) { int k = pick(257, label); if (!k) break; s += (char)(k - 1); } return s; }
// Exact-size heap copy: reads beyond either end are caught.
struct Tight { char* p; int n; Tight(const S& s) : p(new char[s.size()]), n((int)s.size()) { memcpy(p, s.data(), n); } ~Tight() { delete[] p; } };
#define EQ(got, want, sig, in) do { S g_ = (got), w_ = (want); op(); SEQ_CHECK(g_ == w_, sig, "%s: input %s gives %s instead of %s", sig, show(in).c_str(), show(g_).c_str(), show(w_).c_str()); } while (0)
static bool blank(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool xdig(unsigned char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
static int xval(unsigned char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

SEQ_CASE(classes) {
    int i = pick(256, "byte"); char c = (char)i; bool a = i < 128;
    SEQ_CHECK(Ascii::is_valid(c) == a, "ascii", "is_valid(%d)", i);
#define CLS(f, g) SEQ_CHECK(!!Ascii::f(c) == (a && g(i) != 0), "ascii", #f "(%d) = %d", i, (int)Ascii::f(c))
    CLS(is_lower, islower); CLS(is_upper, isupper); CLS(is_alpha, isalpha); CLS(is_digit, isdigit); CLS(is_alpha_number, isalnum); CLS(is_blank, isblank);
    CLS(is_space, isspace); CLS(is_control, iscntrl); CLS(is_punct, ispunct); CLS(is_hex_digit, isxdigit); CLS(is_graph, isgraph); CLS(is_print, isprint);
    SEQ_CHECK(Ascii::to_lower(c) == (a ? (char)tolower(i) : c), "ascii", "to_lower(%d)", i); SEQ_CHECK(Ascii::to_upper(c) == (a ? (char)toupper(i) : c), "ascii", "to_upper(%d)", i);
    SEQ_CHECK(Ascii::to_ascii(c) == (char)(i & 127), "ascii", "to_ascii(%d)", i);
}
SEQ_CASE(letter_case) {
    S s = bytes(2, "byte"); S lo, up;
    for (size_t i = 0; i < s.size(); ++i) { unsigned char c = s[i]; lo += c >= 'A' && c <= 'Z' ? c + 32 : c; up += c >= 'a' && c <= 'z' ? c - 32 : c; }
    EQ(StringUtils::to_lower(s), lo, "to_lower", s); EQ(StringUtils::to_upper(s), up, "to_upper", s);
}
SEQ_CASE(trim) {
    shard_at = 3;
    S s = coin("all bytes") ? bytes(2, "byte") : WORD(" \t\r\n\v\f\0ab\xa0\x85", 6, "char"); size_t b = 0, e = s.size();
    while (b < e && blank(s[b])) ++b; while (e > b && blank(s[e - 1])) --e;
    EQ(StringUtils::trim(s), s.substr(b, e - b), "trim", s);
}
SEQ_CASE(prefix_suffix) {
    shard_at = 3;
    S s = WORD("ab\0", 6, "text"), m = WORD("ab\0", 4, "match");
    bool b = m.size() <= s.size() && s.compare(0, m.size(), m) == 0, e = m.size() <= s.size() && s.compare(s.size() - m.size(), m.size(), m) == 0;
    SEQ_CHECK(StringUtils::begin_with(s, m) == b, "begin_with", "begin_with(%s, %s) is not %d", show(s).c_str(), show(m).c_str(), b);
    SEQ_CHECK(StringUtils::end_with(s, m) == e, "end_with", "end_with(%s, %s) is not %d", show(s).c_str(), show(m).c_str(), e);
}
SEQ_CASE(split_join) {
    shard_at = 3;
    S s = WORD("a,;", 7, "text"), d = WORD("a,;", 3, "delim"); std::vector<S> want, got; got.push_back("stale");
    if (d.empty()) want.push_back(s);
    else { S cur; for (size_t i = 0; i < s.size();) if (s.compare(i, d.size(), d) == 0) { want.push_back(cur); cur.clear(); i += d.size(); } else cur += s[i++]; want.push_back(cur); }
    StringUtils::split(s, d, &got); op();
    SEQ_CHECK(got == want, "split", "split(%s, %s) gives %zu parts, %zu wanted", show(s).c_str(), show(d).c_str(), got.size(), want.size());
    EQ(StringUtils::join(got, d), s, "join", s);
}
SEQ_CASE(join_split) {
    static const char* P[] = { "", "x", "xy", "\xff" }; int n = pick(6, "parts"); std::vector<S> v, w; S want, d = coin("delim") ? ", " : "|";
    for (int i = 0; i < n; ++i) { v.push_back(of(P, "part")); if (i) want += d; want += v.back(); }
    EQ(StringUtils::join(v, d), want, "join", d);
    if (n) { StringUtils::split(want, d, &w); SEQ_CHECK(w == v, "split", "split(join(parts)) is not the parts: %s", show(want).c_str()); }
}
SEQ_CASE(replace) {
    shard_at = 3;
    S s = WORD("ab\0", 6, "text"), o = WORD("ab\0", 3, "old"), n = WORD("abc", 2, "new"), all, one; bool done = false;
    if (o.empty()) all = one = s;
    else for (size_t i = 0; i < s.size();) if (s.compare(i, o.size(), o) == 0) { all += n; one += done ? o : n; done = true; i += o.size(); } else { all += s[i]; one += s[i++]; }
    if (!o.empty()) { size_t p = s.find(o); one = p == S::npos ? s : s.substr(0, p) + n + s.substr(p + o.size()); }
    EQ(StringUtils::replace_all(s, o, n), all, "replace_all", s); EQ(StringUtils::replace(s, o, n), one, "replace", s);
}
static const char CE[] = "\0\x01\x1f 0178x\\n\"'\n\r\t~\x7f\x80\xff?";
// C escape sequences: \a \b \f \n \r \t \v \\ \? \' \" \ooo \xhh...; anything else is bad.
static bool unescape(const S& s, S* out, bool* odd) {
    *odd = false;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] == 0) { *odd = true; return true; } // a C string ends here
        if (s[i] != '\\') { *out += s[i]; continue; }
        if (++i >= s.size() || s[i] == 0) return false;
        const char* p = strchr("a\ab\bf\fn\nr\rt\tv\v\\\\??''\"\"", s[i]); static const char K[] = "abfnrtv\\?'\"", V[] = "\a\b\f\n\r\t\v\\?'\""; (void)p;
        if (const char* k = strchr(K, s[i])) { *out += V[k - K]; continue; }
        if (s[i] >= '0' && s[i] <= '7') { int v = 0, n = 0; while (n < 3 && i < s.size() && s[i] >= '0' && s[i] <= '7') { v = v * 8 + s[i++] - '0'; ++n; } --i; if (v > 255) *odd = true; *out += (char)v; continue; }
        if (s[i] == 'x' || s[i] == 'X') { unsigned long v = 0; size_t b = ++i; while (i < s.size() && xdig(s[i])) { v = v * 16 + xval(s[i++]); if (v > 0xffff) v = 0x10000; } if (i == b) return false; --i; if (v > 255) return false; *out += (char)v; continue; }
        return false;
    }
    return true;
}
static void c_escape_case(const S& s) {
    Tight t(s); S e = StringUtils::c_escape_string(t.p, t.n), back; op(); bool odd;
    EQ(StringUtils::c_escape_string(s), e, "c_escape", s);
    for (size_t i = 0; i < e.size(); ++i) SEQ_CHECK((unsigned char)e[i] >= 0x20 && (unsigned char)e[i] < 0x7f, "c_escape", "escaping %s leaves byte %d", show(s).c_str(), e[i]);
    SEQ_CHECK(unescape(e, &back, &odd) && !odd && back == s, "c_escape", "%s is escaped as %s, which does not stand for it", show(s).c_str(), show(e).c_str());
    S r; try { r = StringUtils::unescape_c_escape_string(e); } catch (std::exception& x) { fail("unescape", "escaped %s cannot be unescaped: %s", show(s).c_str(), x.what()); }
    EQ(r, s, "unescape", s);
}
SEQ_CASE(c_escape) { shard_at = 3; c_escape_case(coin("all bytes") ? bytes(2, "byte") : WORD(CE, thorough ? 5 : 4, "char")); }
SEQ_CASE(c_unescape) {
    shard_at = 3;
    S s = coin("all escapes") ? "z\\" + bytes(2, "byte") : WORD("\\0479xXfAnu\"g", thorough ? 7 : 5, "char"), want, got; bool odd, ok = unescape(s, &want, &odd), threw = false;
    try { got = StringUtils::unescape_c_escape_string(s); } catch (std::runtime_error&) { threw = true; }
    op(); if (odd) return; // octal above \377 or an embedded NUL: unspecified, but must not read out of bounds
    SEQ_CHECK(threw == !ok, "unescape", "%s is %s", show(s).c_str(), threw ? "refused" : "accepted");
    if (ok) EQ(got, want, "unescape", s);
}
SEQ_CASE(xml_escape) {
    shard_at = 3;
    S s = coin("all bytes") ? bytes(2, "byte") : WORD("&<>'\";aml\0\xe4", 4, "char"), want; Tight t(s);
    for (size_t i = 0; i < s.size(); ++i) switch (s[i]) { case '&': want += "&amp;"; break; case '<': want += "&lt;"; break; case '>': want += "&gt;"; break; case '\'': want += "&apos;"; break; case '"': want += "&quot;"; break; default: want += s[i]; }
    EQ(StringUtils::xml_escape_string(t.p, t.n), want, "xml_escape", s); EQ(StringUtils::xml_escape_string(s), want, "xml_escape", s);
    std::ostringstream os; os << "pre"; StringUtils::xml_escape_string(os, t.p, t.n); EQ(os.str(), "pre" + want, "xml_escape", s);
}
// Content of a JSON string literal.
static bool json_unescape(const S& e, S* out) {
    for (size_t i = 0; i < e.size(); ++i) {
        unsigned char c = e[i];
        if (c < 0x20 || c == '"') return false;
        if (c != '\\') { *out += c; continue; }
        if (++i >= e.size()) return false;
        switch (e[i]) { case '"': case '\\': case '/': *out += e[i]; break; case 'b': *out += '\b'; break; case 'f': *out += '\f'; break; case 'n': *out += '\n'; break; case 'r': *out += '\r'; break; case 't': *out += '\t'; break;
            case 'u': { if (i + 4 >= e.size() + 0 && i + 4 > e.size() - 1) return false; int v = 0; for (int k = 0; k < 4; ++k) { if (!xdig(e[i + 1 + k])) return false; v = v * 16 + xval(e[i + 1 + k]); } if (v > 127) return false; *out += (char)v; i += 4; break; }
            default: return false; }
    }
    return true;
}
SEQ_CASE(json_escape) {
    shard_at = 3;
    S s = coin("all bytes") ? bytes(2, "byte") : WORD("\"\\/\b\f\n\r\t\0\x1f\x7f""u0\xc3\xa9", 4, "char"), e, back; Tight t(s);
    e = StringUtils::json_escape_string(t.p, t.n); op();
    SEQ_CHECK(json_unescape(e, &back) && back == s, "json_escape", "%s is escaped as %s", show(s).c_str(), show(e).c_str());
    EQ(StringUtils::json_escape_string(s), e, "json_escape", s); std::ostringstream os; StringUtils::json_escape_string(os, t.p, t.n); EQ(os.str(), e, "json_escape", s);
}
static bool reserved(unsigned char c) { return c && strchr(":/?#[]@!$&'()*+,;=", c); }
static bool unreserved(unsigned char c) { return c && ((c < 128 && isalnum(c)) || strchr("-._~", c)); }
static S enc(unsigned char c) { char b[8]; snprintf(b, sizeof b, "%%%02X", c); return b; }
static bool is_escape(const S& s, size_t i) { return s[i] == '%' && i + 2 < s.size() && xdig(s[i + 1]) && xdig(s[i + 2]); }
static const char UC[] = "%2fFaz/? \xe4\x7f+\0";
SEQ_CASE(url) {
    shard_at = 4;
    S s = coin("all bytes") ? bytes(2, "byte") : WORD(UC, thorough ? 5 : 4, "char"), want; int f = pick(4, "flags"); bool esc = false;
    for (size_t i = 0; i < s.size(); ++i) {
        unsigned char c = s[i];
        if (c == '%') { if (is_escape(s, i)) { want += '%'; esc = true; } else want += "%25"; }
        else if (unreserved(c)) want += c;
        else if (reserved(c)) { if (f & StringUtils::E_ENCODE_RESERVED_CHAR) want += enc(c); else want += c; }
        else if (c > 127 && (f & StringUtils::E_NOT_ENCODE_HIGH_CHAR)) want += c;
        else want += enc(c);
    }
    S e = StringUtils::encode_url(s, f);
    EQ(e, want, "encode_url", s); std::ostringstream os; StringUtils::encode_url(os, s, f); EQ(os.str(), want, "encode_url", s);
    if (!esc) EQ(StringUtils::decode_url(e, StringUtils::E_DECODE_PERCENT_SIGN_CHAR | ((f & 1) ? StringUtils::E_DECODE_RESERVED_CHAR : 0)), s, "decode_url", e);
    if (!esc && s.find('%') == S::npos && !(f & 1)) EQ(StringUtils::decode_url(e), s, "decode_url", e);
}
SEQ_CASE(url_decode) {
    shard_at = 4;
    S s; bool all = coin("all bytes"); int k = pick(4, "flags"); if (all) { S b = bytes(2, "byte"); s = "x%" + b + (coin("more") ? "1" : ""); } else s = WORD("%2fF50aG/\xe4\0", thorough ? 6 : 5, "char");
    int f = (k & 1 ? StringUtils::E_DECODE_RESERVED_CHAR : 0) | (k & 2 ? StringUtils::E_DECODE_PERCENT_SIGN_CHAR : 0); S want;
    for (size_t i = 0; i < s.size(); ++i) if (is_escape(s, i)) {
        unsigned char c = xval(s[i + 1]) * 16 + xval(s[i + 2]);
        if ((reserved(c) && !(k & 1)) || (c == '%' && !(k & 2))) want += s.substr(i, 3); else want += c;
        i += 2;
    } else want += s[i];
    EQ(StringUtils::decode_url(s, f), want, "decode_url", s); std::ostringstream os; StringUtils::decode_url(os, s, f); EQ(os.str(), want, "decode_url", s);
}
SEQ_CASE(hex) {
    shard_at = 3;
    S s = coin("all bytes") ? bytes(2, "byte") : WORD("\0\x0f\x10\x7f\x80\xf0\xff", 5, "byte"), want; char b[4];
    for (size_t i = 0; i < s.size(); ++i) { snprintf(b, 3, "%02x", (unsigned char)s[i]); want += b; }
    EQ(sofa::pbrpc::bin2hex(s), want, "bin2hex", s); EQ(sofa::pbrpc::hex2bin(want), s, "hex2bin", want);
    for (size_t i = 0; i < want.size(); ++i) want[i] = toupper(want[i]); EQ(sofa::pbrpc::hex2bin(want), s, "hex2bin", want);
}
SEQ_CASE(hex_text) {
    shard_at = 3;
    S s = coin("all bytes") ? bytes(2, "byte") : WORD("09afAFg/:@G`\x80\0", 4, "char"), want, got; bool ok = s.size() % 2 == 0, threw = false;
    for (size_t i = 0; i < s.size(); ++i) if (!xdig(s[i])) ok = false;
    if (ok) for (size_t i = 0; i < s.size(); i += 2) want += (char)(xval(s[i]) * 16 + xval(s[i + 1]));
    try { got = sofa::pbrpc::hex2bin(s); } catch (std::runtime_error&) { threw = true; }
    SEQ_CHECK(threw == !ok && got == want, "hex2bin", "%s: %s", show(s).c_str(), threw ? "refused" : show(got).c_str());
}
static const char* B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
SEQ_CASE(base64) {
    shard_at = 3;
    S s = coin("all bytes") ? bytes(2, "byte") : WORD("\0\x01\x3f\x40\x7f\x80\xfb\xff", 5, "byte"), want;
    unsigned acc = 0, bits = 0;
    for (size_t i = 0; i < s.size(); ++i) { acc = acc << 8 | (unsigned char)s[i]; bits += 8; while (bits >= 6) { bits -= 6; want += B64[acc >> bits & 63]; } }
    if (bits) want += B64[acc << (6 - bits) & 63];
    while (want.size() % 4) want += '=';
    EQ(sofa::pbrpc::b64_encode(s), want, "b64_encode", s); EQ(sofa::pbrpc::b64_decode(want), s, "b64_decode", want);
}
SEQ_CASE(base64_text) {
    shard_at = 3;
    S s = coin("any bytes") ? "QQ" + bytes(2, "byte") : WORD("AQZz9+/=-\x80\0", thorough ? 6 : 5, "char"), got; bool chars = s.size() % 4 == 0, threw = false, canonical = chars;
    size_t eq = s.find('='); for (size_t i = 0; i < s.size(); ++i) { if (s[i] != '=' && (!s[i] || !strchr(B64, s[i]))) chars = canonical = false; if (eq != S::npos && i > eq && s[i] != '=') canonical = false; }
    if (eq != S::npos && eq + 2 < s.size()) canonical = false;
    try { got = sofa::pbrpc::b64_decode(s); } catch (std::runtime_error&) { threw = true; }
    if (!chars) { SEQ_CHECK(threw, "b64_decode", "%s accepted", show(s).c_str()); return; }
    if (canonical) { // decodes to what encodes back to it (unused bits aside)
        SEQ_CHECK(!threw, "b64_decode", "%s refused", show(s).c_str()); S e = sofa::pbrpc::b64_encode(got); size_t n = eq == S::npos ? s.size() : eq ? eq - 1 : 0;
        SEQ_CHECK(e.size() == s.size() && e.compare(0, n, s, 0, n) == 0, "b64_decode", "%s decoded to %s", show(s).c_str(), show(got).c_str());
    }
}
SEQ_CASE(numbers) {
    static const uint64_t V[] = { 0, 1, 9, 10, 15, 16, 255, 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xdeadbeefcafef00dull, ~0ull };
    uint64_t v = of(V, "value") ^ (1ull << pick(64, "bit")); S want = "0x"; for (int i = 60; i >= 0; i -= 4) want += "0123456789ABCDEF"[v >> i & 15];
    EQ(StringUtils::uint64_to_string(v), want, "uint64_to_string", want);
}
SEQ_CASE(resize) {
    static const int N[] = { 0, 1, 7, 15, 16, 17, 30, 31, 32, 64, 1000, 5000 }; int a = of(N, "size"), b = of(N, "new size"); leak_check = true;
    S s; for (int i = 0; i < a; ++i) s += (char)('a' + i % 26);
    S old = s; if (coin("capacity")) s.reserve(4096);
    StringUtils::resize_uninitialized(&s, b);
    SEQ_CHECK((int)s.size() == b && s.compare(0, std::min(a, b), old, 0, std::min(a, b)) == 0, "resize", "resize %d to %d", a, b);
    if (b) { char* p = StringUtils::string_as_array(&s); SEQ_CHECK(p == s.data(), "string_as_array", "not the string's buffer"); for (int i = 0; i < b; ++i) p[i] = (char)i; for (int i = 0; i < b; ++i) SEQ_CHECK(s[i] == (char)i, "resize", "content"); SEQ_CHECK(s.c_str()[b] == 0, "resize", "no terminating zero"); }
}
SEQ_MAIN
