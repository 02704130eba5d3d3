// C15, C17: HTTP requests through the real parser, router and servlets, without sockets.
#include "seq.h"
#include <memory>
#include <algorithm>
#include <sofa/pbrpc/buffer.h>
#include <sofa/pbrpc/tran_buf_pool.h>
#include <sofa/pbrpc/http.h>
#include <sofa/pbrpc/ext_closure.h>
#include <sofa/pbrpc/http_rpc_request_parser.h>
#include <sofa/pbrpc/rpc_server_impl.h>
#include <sofa/pbrpc/rpc_server_stream.h>
#include <sofa/pbrpc/web_service.h>
#include "vecho.pb.h"
using namespace sofa::pbrpc; using namespace seq;
typedef std::map<std::string, std::string> Map;

struct Seen { int type; std::string path, body; Map query, headers; bool operator==(const Seen& o) const { return type == o.type && path == o.path && body == o.body && query == o.query && headers == o.headers; } };
static std::vector<Seen> seen;
struct Hook { int id; static std::vector<int> calls; Hook(int i) : id(i) {}
    bool Run(const HTTPRequest& q, HTTPResponse&) { Seen s; s.type = q.type; s.path = q.path; s.body = q.body->ToString(); s.query = *q.query_params; s.headers = *q.headers; seen.push_back(s); calls.push_back(id); return true; } };
std::vector<int> Hook::calls;
// a server object that is never started, with a servlet that sees every path
struct Site {
    RpcServer srv; ServicePoolPtr pool; Hook hook;
    static RpcServerOptions opt() { RpcServerOptions o; o.work_thread_num = 1; return o; }
    Site() : srv(opt()), pool(new ServicePool(srv.impl().get())), hook(0) {}
    void run(const RpcRequestPtr& r) { r->ProcessRequest(RpcServerStreamWPtr(), pool); }
};
static Site* site() { static Site* s = new Site; return s; }

// what one connection makes of a byte stream: requests up to the first error
struct Conn { std::vector<RpcRequestPtr> reqs; bool rejected; };
struct Feeder {
    HTTPRpcRequestParser p; bool magic; std::string head; Conn c;
    Feeder() : magic(false) { c.rejected = false; }
    void feed(const char* d, size_t n) {
        while (n && !c.rejected) {
            if (!magic) { size_t k = std::min(n, 4 - head.size()); head.append(d, k); d += k; n -= k; if (head.size() < 4) return; magic = true; if (!p.CheckMagicString(head.c_str())) { c.rejected = true; return; } head.clear(); if (!n) return; }
            int factor = 0; char* b = (char*)TranBufPool::malloc(0); while ((size_t)TranBufPool::capacity(b) < n + 8 && factor < 9) { TranBufPool::free(b); b = (char*)TranBufPool::malloc(++factor); } size_t off = n % 5; SEQ_CHECK((size_t)TranBufPool::capacity(b) >= n + off, "harness", "block too small"); memcpy(b + off, d, n); memset(b + off + n, '#', 3);
            int used = -1, r = p.Parse(b, (int)n, (int)off, &used);
            if (r >= 0) SEQ_CHECK(used >= 0 && used <= (int)n, "consumed", "%d of %zu bytes consumed", used, n);
            if (r == 0) SEQ_CHECK(used == (int)n, "consumed", "more bytes asked for with %zu of %zu consumed", (size_t)used, n);
            TranBufPool::free(b);
            if (r < 0) { c.rejected = true; return; }
            d += used; n -= used;
            if (r == 1) { c.reqs.push_back(p.GetRequest()); p.Reset(); magic = false; }
        }
        if (false) (void)0;
    }
};
static void split_feed(Feeder& f, const std::string& s, const std::vector<size_t>& cuts) { size_t o = 0; for (size_t i = 0; i <= cuts.size(); ++i) { size_t e = i < cuts.size() ? cuts[i] : s.size(); if (e > o) { std::unique_ptr<char[]> t(new char[e - o]); memcpy(t.get(), s.data() + o, e - o); f.feed(t.get(), e - o); } o = e; } }
// the library starts the parser on a request without body only when there is at least one more byte to parse; as used by the stream
static std::vector<Seen> show_all(const Conn& c) { seen.clear(); Hook::calls.clear(); for (size_t i = 0; i < c.reqs.size(); ++i) { size_t k = seen.size(); site()->run(c.reqs[i]); if (seen.size() != k + 1) { Seen s; s.type = -1; seen.push_back(s); } } return seen; }

// ---- reference
enum Verdict { ACCEPT, REJECT, MORE, EITHER };
struct Ref { Verdict v; Seen s; size_t used; std::set<std::string> loose; bool loose_headers; };
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string unpercent(const std::string& s) { std::string r; for (size_t i = 0; i < s.size(); ++i) if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { r += (char)(hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; } else r += s[i]; return r; }
static bool token(const std::string& s) { for (size_t i = 0; i < s.size(); ++i) if ((unsigned char)s[i] <= ' ' || (unsigned char)s[i] >= 0x7f || strchr("()<>@,;:\\\"/[]?={}", s[i])) return false; return !s.empty(); }
static Ref ref_request(const std::string& in) {
    Ref r; r.v = MORE; r.used = 0; r.loose_headers = false; r.s.type = HTTPRequest::GET;
    size_t n = in.size(); if (n < 4) return r;
    size_t o; if (!in.compare(0, 4, "GET ")) { o = 4; } else if (!in.compare(0, 4, "POST")) { r.s.type = HTTPRequest::POST; if (n < 5) return r; if (in[4] != ' ') { r.v = REJECT; return r; } o = 5; } else { r.v = REJECT; return r; }
    size_t eol = in.find('\n', o); std::string line = in.substr(o, eol == std::string::npos ? std::string::npos : eol - o); // up to the line feed
    size_t sp = line.find(' ');
    if (sp == std::string::npos) { if (eol != std::string::npos || line.find('\r') != std::string::npos) r.v = EITHER; if (!line.empty() && line[0] != '/') r.v = EITHER; if (eol != std::string::npos) r.v = REJECT; return r; }
    std::string target = line.substr(0, sp); if (target.empty() || target[0] != '/') { r.v = REJECT; return r; }
    if (target.find('\r') != std::string::npos) { r.v = REJECT; return r; }
    std::string ver = line.substr(sp + 1);
    if (eol == std::string::npos) { size_t cr = ver.find('\r'); if (cr != std::string::npos && cr + 1 < ver.size()) r.v = REJECT; return r; }
    if (ver.empty() || ver[ver.size() - 1] != '\r' || ver.find('\r') != ver.size() - 1) { r.v = REJECT; return r; }
    bool loose = ver != "HTTP/1.1\r" && ver != "HTTP/1.0\r";
    // target
    size_t q = target.find_first_of("?#"); r.s.path = target.substr(0, q);
    if (q != std::string::npos && target[q] == '?') { std::string qs = target.substr(q + 1); qs = qs.substr(0, qs.find('#'));
        size_t p = 0; while (p <= qs.size()) { size_t e = qs.find('&', p); if (e == std::string::npos) e = qs.size(); std::string kv = qs.substr(p, e - p); size_t eq = kv.find('='); if (eq != std::string::npos) { std::string k = kv.substr(0, eq); if (r.s.query.count(k) || k.empty() || k.find('%') != std::string::npos) r.loose.insert(k); r.s.query[k] = unpercent(kv.substr(eq + 1)); } else if (!kv.empty()) r.loose.insert(kv); p = e + 1; } }
    // headers
    o = eol + 1; int64_t len = 0; int lens = 0;
    for (;;) {
        eol = in.find('\n', o); std::string l = in.substr(o, eol == std::string::npos ? std::string::npos : eol - o);
        size_t cr = l.find('\r');
        if (cr != std::string::npos && cr + 1 < l.size()) { r.v = REJECT; return r; }           // CR not followed by LF
        if (eol == std::string::npos) { if (!l.empty() && l[0] == ':') r.v = EITHER; if (cr != std::string::npos && cr > 0 && l.find(':') == std::string::npos) r.v = REJECT; if (loose && r.v == MORE) r.v = EITHER; return r; }
        if (cr == std::string::npos) { r.v = REJECT; return r; }                                // LF without CR
        l.resize(cr); o = eol + 1;
        if (l.empty()) break;
        size_t c = l.find(':'); if (c == std::string::npos || c == 0) { r.v = REJECT; return r; }
        std::string name = l.substr(0, c), val = l.substr(c + 1); if (!val.empty() && val[0] == ' ') val.erase(0, 1);
        if (!token(name) || (!val.empty() && (val[0] == ' ' || val[0] == '\t' || val[val.size() - 1] == ' ' || val[val.size() - 1] == '\t'))) { loose = true; r.loose_headers = true; }
        if (r.s.headers.count(name)) r.loose_headers = true;
        r.s.headers[name] = val;
        if (!strcasecmp(name.c_str(), "content-length")) {
            ++lens; bool digits = !val.empty(), any = false; for (size_t i = 0; i < val.size(); ++i) { if (val[i] < '0' || val[i] > '9') digits = false; else any = true; }
            if (digits && val.size() <= 12) len = strtoll(val.c_str(), NULL, 10);
            else if (digits) { r.v = EITHER; return r; }
            else if (val.empty() || val[0] == ' ' || val[0] == '\t' || val[0] == '+' || val[val.size() - 1] == ' ' || val[val.size() - 1] == '\t' || val == "-0" || val.find('_') == 0) loose = true;
            else { (void)any; r.v = REJECT; return r; }                                          // only known after the header block, but nothing valid can follow
        }
    }
    if (lens > 1) { r.v = EITHER; return r; }
    if (loose) { r.v = EITHER; return r; }
    if ((int64_t)(n - o) < len) return r;
    r.s.body = in.substr(o, len); r.used = o + len; r.v = ACCEPT; return r;
}
static void same(const Seen& got, const Ref& r, const char* how, const std::string& in) {
    const Seen& w = r.s;
    SEQ_CHECK(got.type != -1, "not_routed", "%s: no servlet was called for %s", how, show(in).c_str());
    Map::const_iterator acc = w.headers.find("Accept"); bool pb = acc != w.headers.end() && acc->second == "application/protobuf"; // makes it a protobuf POST
    SEQ_CHECK(got.type == w.type || (pb && got.type == HTTPRequest::POST), "type", "%s: type %d, expected %d", how, got.type, w.type);
    SEQ_CHECK(got.path == w.path, "path", "%s: path %s, expected %s", how, show(got.path).c_str(), show(w.path).c_str());
    SEQ_CHECK(got.body == w.body, "body", "%s: body %s, expected %s", how, show(got.body).c_str(), show(w.body).c_str());
    for (Map::const_iterator i = w.query.begin(); i != w.query.end(); ++i) if (!r.loose.count(i->first)) { Map::const_iterator g = got.query.find(i->first); SEQ_CHECK(g != got.query.end(), "query", "%s: parameter %s missing in %s", how, show(i->first).c_str(), show(in).c_str()); SEQ_CHECK(g->second == i->second, "query", "%s: parameter %s is %s, expected %s", how, show(i->first).c_str(), show(g->second).c_str(), show(i->second).c_str()); }
    for (Map::const_iterator i = got.query.begin(); i != got.query.end(); ++i) SEQ_CHECK(w.query.count(i->first) || r.loose.count(i->first) || !r.loose.empty(), "query", "%s: parameter %s is not in %s", how, show(i->first).c_str(), show(in).c_str());
    if (r.loose_headers) return;
    SEQ_CHECK(got.headers == w.headers, "headers", "%s: %zu headers, expected %zu, in %s", how, got.headers.size(), w.headers.size(), show(in).c_str());
}
// compares a whole stream, in a segmentation, with the reference
static void check(const std::string& in, const std::vector<size_t>& cuts, const char* how) {
    Feeder f; split_feed(f, in, cuts); std::vector<Seen> got = show_all(f.c);
    size_t o = 0, k = 0;
    for (;;) {
        if (o == in.size()) { SEQ_CHECK(got.size() == k && !f.c.rejected, f.c.rejected ? "rejected" : "extra", "%s: %zu requests%s, expected %zu: %s", how, got.size(), f.c.rejected ? " and an error" : "", k, show(in).c_str()); return; }
        Ref r = ref_request(in.substr(o));
        if (r.v == EITHER) return;
        if (r.v == REJECT) { SEQ_CHECK(f.c.rejected && got.size() == k, "accepted", "%s: malformed request %s was not rejected (%zu requests decoded)", how, show(in.substr(o)).c_str(), got.size()); return; }
        if (r.v == MORE) { SEQ_CHECK(got.size() == k && !f.c.rejected, f.c.rejected ? "rejected" : "early", "%s: %s after an incomplete request %s", how, f.c.rejected ? "error" : "request", show(in.substr(o)).c_str()); return; }
        SEQ_CHECK(got.size() > k, f.c.rejected ? "rejected" : "lost", "%s: request %zu of %s was %s", how, k, show(in).c_str(), f.c.rejected ? "rejected" : "not decoded");
        same(got[k], r, how, in); o += r.used; ++k;
    }
}
static std::vector<size_t> every(size_t n) { std::vector<size_t> v; for (size_t i = 1; i < n; ++i) v.push_back(i); return v; }
static void catch_all() { static bool done = false; if (done) return; done = true;
    WebServicePtr w = site()->srv.impl()->GetWebService(); Servlet h = NewPermanentExtClosure(&site()->hook, &Hook::Run);
    const char* P[] = { "/", "/home", "/options", "/status", "/services", "/service", "/profiling" }; for (size_t i = 0; i < sizeof P / sizeof *P; ++i) w->UnregisterServlet(P[i]);
    // every first segment the enumerations can produce
    w->RegisterServlet("/", h, false); }
// the catch-all: the tests' paths start with one of these
static void route(const std::string& target) { WebServicePtr w = site()->srv.impl()->GetWebService(); std::string p = target.substr(0, target.find_first_of("?#")); static std::set<std::string> have; size_t a = 0; while (a < p.size() && p[a] == '/') ++a; size_t b = p.find('/', a); std::string seg = p.substr(a, b == std::string::npos ? std::string::npos : b - a); if (seg.empty() || have.count(seg)) return; have.insert(seg); Servlet h = NewPermanentExtClosure(&site()->hook, &Hook::Run); SEQ_CHECK(w->RegisterServlet("/" + seg, h, false), "register", "cannot register /%s", seg.c_str()); }

// every request target over an alphabet
SEQ_CASE(targets) {
    shard_at = 4; catch_all();
    static const char A[] = { '/', 'a', '?', '=', '&', '%', '2', 'f', '#', '+' }; int max = thorough ? 6 : 5; int n = pick(max + 1, "length");
    std::string t = "/"; for (int i = 0; i < n; ++i) t += of(A, "char");
    route(t); std::string s = "GET " + t + " HTTP/1.1\r\nHost: h\r\n\r\n"; std::vector<size_t> none; check(s, none, "whole"); check(s, every(s.size()), "bytewise");
}
// longer query strings from pieces
SEQ_CASE(queries) {
    shard_at = 4; catch_all();
    static const char* P[] = { "a=1", "b=", "=c", "d", "&", "%41=%41", "e=%2", "f=%zz", "g=x=y", "h=%00%ff", "i=+", "j=a%20b%26c", "#z=1", "k=%", "?l=2", "" }; int max = thorough ? 5 : 4; int n = pick(max + 1, "pieces");
    std::string t = "/q"; if (n) t += '?'; for (int i = 0; i < n; ++i) { if (i) t += '&'; t += of(P, "piece"); }
    route("/q"); bool post = coin("post"); std::string s = post ? "POST " + t + " HTTP/1.0\r\nContent-Length: 2\r\n\r\nhi" : "GET " + t + " HTTP/1.1\r\n\r\n"; std::vector<size_t> none; check(s + "GET /q HTTP/1.1\r\n\r\n", none, "whole");
}
// every header block over an alphabet
SEQ_CASE(header_chars) {
    shard_at = 4; catch_all(); route("/h");
    static const char A[] = { 'a', ':', ' ', '\r', '\n', '1' }; int max = thorough ? 8 : 7; int n = pick(max + 1, "length"); std::string h; for (int i = 0; i < n; ++i) h += of(A, "char");
    std::string s = "GET /h HTTP/1.1\r\n" + h; std::vector<size_t> none; check(s, none, "open"); s += "\r\n\r\n"; check(s, none, "whole"); check(s, every(s.size()), "bytewise");
}
// every request line over an alphabet
SEQ_CASE(request_line) {
    shard_at = 4; catch_all(); route("/h");
    static const char A[] = { ' ', '/', 'h', '\r', '\n', 'H' }; static const char* M[] = { "GET", "POST", "GETX", "get", "PUT ", "G", "POS", "HEAD", "" }; int max = thorough ? 7 : 6; int n = pick(max + 1, "length"); std::string h; for (int i = 0; i < n; ++i) h += of(A, "char");
    static const char* R[] = { "", " HTTP/1.1\r\n\r\n", "\r\n\r\n" }; std::string s = std::string(of(M, "method")) + h + of(R, "rest"); route(s.substr(std::min(s.size(), s.find('/')))); std::vector<size_t> none; check(s, none, "whole"); check(s, every(s.size()), "bytewise");
}
// requests put together from pieces, several on one connection, in every segmentation with up to two cuts
SEQ_CASE(streams) {
    shard_at = 5; catch_all(); route("/p");
    static const char* T[] = { "/p", "/p/a?x=%20", "/p?" }; static const char* H[] = { "", "Host: h\r\n", "A:1\r\nB:\r\n", "X-Y: a: b,c \xe4\r\nAccept: application/protobuf\r\n" };
    static const char* L[] = { "Content-Length: ", "content-length: ", "CONTENT-LENGTH:", "Content-Length : " }; static const char* V[] = { "0", "1", "5", "7", "05", "-1", "abc", "5x", "" };
    int n = 1 + pick(2, "requests"); std::string s;
    for (int i = 0; i < n; ++i) {
        bool post = coin("post"); s += post ? "POST " : "GET "; s += of(T, "target"); s += " HTTP/1.1\r\n"; s += of(H, "headers");
        int l = pick(i ? 2 : 5, "length header"); if (l) { s += L[l - 1]; int v = i ? 2 : pick(9, "length value"); s += V[v]; s += "\r\n"; }
        s += "\r\n"; if (l) s += std::string("he\0\r\n", 5);
    }
    std::vector<size_t> c; check(s, c, "whole"); check(s, every(s.size()), "bytewise");
    for (size_t a = 1; a < s.size(); ++a) { c.assign(1, a); check(s, c, "one cut"); if (thorough) for (size_t b = a + 1; b < s.size(); ++b) { c.assign(1, a); c.push_back(b); check(s, c, "two cuts"); } }
}
// bodies of every size near block boundaries, split at the boundary
SEQ_CASE(bodies) {
    shard_at = 2; catch_all(); route("/p"); leak_check = true;
    static const int N[] = { 0, 1, 2, 1023, 1024, 1025, 8191, 8192, 30000 }; static const int C[] = { 1, 2, 7, 1000, 1024, 8000 }; int n = of(N, "size"), c = of(C, "slice"); if (n / c > 2000) throw Skip();
    std::string b(n, 'x'); for (int i = 0; i < n; ++i) b[i] = (char)(i * 7); char h[64]; snprintf(h, sizeof h, "Content-Length: %d\r\n\r\n", n);
    std::string s = std::string("POST /p HTTP/1.1\r\n") + h + b + "GET /p/next HTTP/1.1\r\n\r\n"; std::vector<size_t> cuts; for (size_t i = c; i < s.size(); i += c) cuts.push_back(i); check(s, cuts, "sliced");
}
// ---- C17: registering, unregistering and routing
static std::string norm(const std::string& p) { std::string r, cur; for (size_t i = 0; i <= p.size(); ++i) if (i == p.size() || p[i] == '/') { if (!cur.empty()) r += "/" + cur; cur.clear(); } else cur += p[i]; return r.empty() ? "/" : r; }
static const char* PATHS[] = { "/a", "a/", "//a//", "/a/b", "/a//b/", "/ab", "/", "", "/a/b/c", "a/bc" };
SEQ_CASE(servlets) {
    shard_at = 4; leak_check = true;
    RpcServerImplPtr impl = site()->srv.impl(); RpcServer s2(Site::opt()); WebServicePtr w(s2.impl()->GetWebService()); ServicePoolPtr pool(new ServicePool(s2.impl().get()));
    const char* P[] = { "/", "/home", "/options", "/status", "/services", "/service", "/profiling" }; std::set<Servlet> old; for (size_t i = 0; i < sizeof P / sizeof *P; ++i) { Servlet s = w->UnregisterServlet(P[i]); SEQ_CHECK(s != NULL, "builtin", "%s is not registered", P[i]); old.insert(s); }
    for (std::set<Servlet>::iterator i = old.begin(); i != old.end(); ++i) delete *i;
    Hook h[4] = { 1, 2, 3, 4 }; Servlet sv[4]; for (int i = 0; i < 4; ++i) sv[i] = NewPermanentExtClosure(&h[i], &Hook::Run);
    std::map<std::string, int> model; int steps = thorough ? 4 : 3, next = 0;
    for (int i = 0; i < steps; ++i) {
        int op = pick(2, "op"); std::string p = of(PATHS, "path");
        if (op == 0) { bool ok = w->RegisterServlet(p, sv[next], false); SEQ_CHECK(ok == !model.count(norm(p)), "register", "RegisterServlet(%s) returned %d", show(p).c_str(), ok); if (ok) model[norm(p)] = next; ++next; }
        else { Servlet s = w->UnregisterServlet(p); Servlet want = model.count(norm(p)) ? sv[model[norm(p)]] : NULL; SEQ_CHECK(s == want, "unregister", "UnregisterServlet(%s) returned %s servlet", show(p).c_str(), !s ? "no" : want ? "another" : "a"); model.erase(norm(p)); }
    }
    static const char* Q[] = { "/a", "/a/", "//a", "/a/b", "/a/b/c/d", "/ab", "/abc", "/a/bc", "/a/x", "/", "//", "/b", "/a/b/cd", "/a/b/c" };
    for (size_t i = 0; i < sizeof Q / sizeof *Q; ++i) {
        std::string n = norm(Q[i]); int want = -1; if (n == "/") { if (model.count("/")) want = model["/"]; } else for (std::string k = n; !k.empty(); k.resize(k.rfind('/'))) if (model.count(k)) { want = model[k]; break; }
        Feeder f; std::string r = std::string("GET ") + Q[i] + " HTTP/1.1\r\n\r\n"; f.feed(r.data(), r.size()); SEQ_CHECK(f.c.reqs.size() == 1, "harness", "request not decoded"); Hook::calls.clear();
        f.c.reqs[0]->ProcessRequest(RpcServerStreamWPtr(), pool);
        int got = Hook::calls.empty() ? -1 : Hook::calls[0] - 1;
        SEQ_CHECK(Hook::calls.size() <= 1 && got == want, "route", "request for %s went to servlet %d, expected %d", Q[i], got, want);
    }
    for (int i = 0; i < 4; ++i) delete sv[i];
    obs("%zu", model.size());
}
struct Owned : ExtClosure<bool(const HTTPRequest&, HTTPResponse&)> { static int live; Owned() { ++live; } virtual ~Owned() { --live; } virtual bool Run(const HTTPRequest&, HTTPResponse&) { return true; } virtual bool IsSelfDelete() const { return false; } };
int Owned::live = 0;
// owned servlets are destroyed exactly once, whatever they were registered for
SEQ_CASE(ownership) {
    shard_at = 3; Owned::live = 0; Owned* o[3] = { 0, 0, 0 }; std::map<std::string, int> model; bool own[3] = { 0, 0, 0 }; int reg[3] = { 0, 0, 0 };
    { RpcServer s2(Site::opt()); WebServicePtr w(s2.impl()->GetWebService());
      int steps = thorough ? 5 : 4;
      for (int i = 0; i < steps; ++i) {
          int op = pick(7, "op"); static const char* P[] = { "/x", "/y/", "/x/z" };
          if (op < 6) { int k = op % 3; bool own_it = op < 3; if (!o[k]) { o[k] = new Owned; own[k] = own_it; } else if (own[k] != own_it) throw Skip(); std::string p = of(P, "path"); bool ok = w->RegisterServlet(p, o[k], own_it); SEQ_CHECK(ok == !model.count(norm(p)), "register", "RegisterServlet returned %d", ok); if (ok) { model[norm(p)] = k; ++reg[k]; } }
          else { std::string p = of(P, "path"); Servlet s = w->UnregisterServlet(p); bool had = model.count(norm(p)); SEQ_CHECK((s != NULL) == had, "unregister", "UnregisterServlet"); if (had) { --reg[model[norm(p)]]; model.erase(norm(p)); } }
      } }
    int want = 0; for (int k = 0; k < 3; ++k) if (o[k] && !(own[k] && reg[k])) ++want;
    SEQ_CHECK(Owned::live == want, "ownership", "%d servlets left, expected %d", Owned::live, want);
    for (int k = 0; k < 3; ++k) if (o[k] && !(own[k] && reg[k])) delete o[k];
}
// the pages every server has answer whatever is asked of them
SEQ_CASE(pages) {
    shard_at = 2;
    RpcServer s2(Site::opt()); ServicePoolPtr pool(new ServicePool(s2.impl().get()));
    static const char* P[] = { "/", "/home", "/options", "/status", "/services", "/service", "/home/x" }; static const char* Q[] = { "", "?name=verif.EchoServer", "?name=", "?name=sofa.pbrpc.builtin.BuiltinService", "?name=%3Cscript%3E", "?x", "?name=a&name=b" };
    std::string r = std::string(coin("post") ? "POST " : "GET ") + of(P, "path") + of(Q, "query") + " HTTP/1.1\r\n\r\n"; Feeder f; f.feed(r.data(), r.size()); SEQ_CHECK(f.c.reqs.size() == 1, "harness", "request not decoded");
    f.c.reqs[0]->ProcessRequest(RpcServerStreamWPtr(), pool);
}
SEQ_MAIN
