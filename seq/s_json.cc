// C16: protobuf <-> JSON conversion and calls over HTTP against binary ones, on the real code without sockets.
#include "seq.h"
#include <float.h>
#include <math.h>
#include <limits>
#include <memory>
#include <google/protobuf/util/message_differencer.h>
#include <sofa/pbrpc/http_rpc_request_parser.h>
#include <sofa/pbrpc/pbjson.h>
#include <sofa/pbrpc/rpc_server_impl.h>
#include <sofa/pbrpc/rpc_server_stream.h>
#include <sofa/pbrpc/tran_buf_pool.h>
#include <sofa/pbrpc/web_service.h>
#include "vall.pb.h"
using namespace sofa::pbrpc; using namespace seq; using verif::All; using verif::Leaf;
#include <rapidjson/document.h>
#ifdef SEQ_ASAN
#include <sanitizer/asan_interface.h>
#endif
namespace gp = google::protobuf;

static const double D[] = { 0, -0.0, 1, -1, 0.1, 1.0 / 3, 123456789.123456789, 1e15, 1e16, 1e17, 1e22, 1e23, 9007199254740993.0, 1e100, 1e-5, 1e-7, 1e-100, 1e-300, 2.2250738585072014e-308, 4.9e-324, 1e300, 1.5e308, 3.14159265358979, 1e-310, 100000, 1000000, 1234567, 0.5, -2.5e-10, 4294967296.0, 18446744073709551616.0, -9223372036854775808.0, 1e21, 123456.7, 2147483648.0 };
static const int64_t I[] = { 0, 1, -1, 127, 128, INT32_MAX, INT32_MIN, (int64_t)INT32_MAX + 1, (int64_t)INT32_MIN - 1, UINT32_MAX, (int64_t)UINT32_MAX + 1, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, 1ll << 53, (1ll << 53) + 1, 1000000000000000000ll, -1000000000000000000ll, 4611686018427387904ll, 999999999 };
static const uint64_t U[] = { 0, 1, UINT32_MAX, (uint64_t)UINT32_MAX + 1, INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX, UINT64_MAX - 1, 10000000000000000000ull, 18446744073709551609ull, 1ull << 53, INT32_MAX, (uint64_t)INT32_MAX + 1 };
static std::vector<std::string> strs() { static std::vector<std::string> v; if (v.empty()) { const char* a[] = { "", "a", "\"", "\\", "/", "\b\f\n\r\t", "\x01\x1f\x7f", "\xc3\xa9", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "</script>", "null", "{\"a\":1}", "\\u0041", "a b", "=", "%", "&", "0123456789abcdef0123456789abcdef", "\xe2\x80\xa8" }; for (size_t i = 0; i < sizeof a / sizeof *a; ++i) v.push_back(a[i]); v.push_back(std::string("\0", 1)); v.push_back(std::string("a\0b", 3)); v.push_back(std::string(70000, 'z')); } return v; }
static std::string bytes_of(int k) { std::string r; static const int N[] = { 0, 1, 2, 3, 4, 5, 256, 300 }; int n = N[k % 8]; for (int i = 0; i < n; ++i) r += (char)(k < 8 ? i : 255 - i); return r; }
static bool close_to(double a, double b) { if (a == b) return true; if (a == 0 || b == 0) return fabs(a - b) < 5e-324 * 4; return fabs(a - b) <= 4e-16 * 4 * fmax(fabs(a), fabs(b)) || fabs(a - b) <= 5e-324 * 4; }
static bool same_msg(const gp::Message& a, const gp::Message& b, std::string* where) {
    gp::util::MessageDifferencer d; gp::util::DefaultFieldComparator c; c.set_float_comparison(gp::util::DefaultFieldComparator::APPROXIMATE); c.set_treat_nan_as_equal(true); c.SetDefaultFractionAndMargin(1e-15, 1e-320); d.set_field_comparator(&c); d.ReportDifferencesToString(where); return d.Compare(a, b);
}
static void add_field(All* m, int f) {
    const gp::FieldDescriptor* fd = m->GetDescriptor()->field(f); const gp::Reflection* r = m->GetReflection(); int n = fd->is_repeated() ? 1 + pick(2, "count") : 1; bool rep = fd->is_repeated();
    for (int i = 0; i < n; ++i) switch (fd->cpp_type()) {
        case gp::FieldDescriptor::CPPTYPE_DOUBLE: { double v = of(D, "double"); if (rep) r->AddDouble(m, fd, v); else r->SetDouble(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_FLOAT: { float v = (float)of(D, "float"); if (!isfinite(v)) v = FLT_MAX; if (rep) r->AddFloat(m, fd, v); else r->SetFloat(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_INT32: { int v = (int)of(I, "int"); if (rep) r->AddInt32(m, fd, v); else r->SetInt32(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_INT64: { int64_t v = of(I, "int"); if (rep) r->AddInt64(m, fd, v); else r->SetInt64(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_UINT32: { uint32_t v = (uint32_t)of(U, "uint"); if (rep) r->AddUInt32(m, fd, v); else r->SetUInt32(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_UINT64: { uint64_t v = of(U, "uint"); if (rep) r->AddUInt64(m, fd, v); else r->SetUInt64(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_BOOL: { bool v = coin("bool"); if (rep) r->AddBool(m, fd, v); else r->SetBool(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_STRING: { std::string v = fd->type() == gp::FieldDescriptor::TYPE_BYTES ? bytes_of(pick(16, "bytes")) : strs()[pick((int)strs().size(), "string")]; if (rep) r->AddString(m, fd, v); else r->SetString(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_ENUM: { static const verif::Color C[] = { verif::RED, verif::BLUE, verif::NEG }; const gp::EnumValueDescriptor* v = fd->enum_type()->FindValueByNumber(of(C, "enum")); if (rep) r->AddEnum(m, fd, v); else r->SetEnum(m, fd, v); break; }
        case gp::FieldDescriptor::CPPTYPE_MESSAGE: { gp::Message* s = rep ? r->AddMessage(m, fd) : r->MutableMessage(m, fd); if (fd->message_type()->name() == "Leaf") { Leaf* l = (Leaf*)s; l->set_r(coin("r")); if (coin("a")) l->set_a(-5); int k = pick(3, "leaf strings"); for (int q = 0; q < k; ++q) l->add_b(q ? "x\"y" : ""); } else if (coin("deep")) { All* a = (All*)s; a->set_i64(INT64_MIN); a->mutable_deep()->add_rby("\xff\xfe"); } break; }
        default: break;
    }
}
static void round_trip(const All& m) {
    std::string js; pb2json(&m, js); All back; std::string err, where; int r = json2pb(js, &back, err);
    SEQ_CHECK(r == 0, "own_json_rejected", "json2pb rejects what pb2json wrote (%s): %s", err.c_str(), show(js).c_str());
    SEQ_CHECK(same_msg(m, back, &where), "round_trip", "%s changed by way of %s", where.c_str(), show(js).c_str());
    rapidjson::Document d; d.Parse<0>(js.c_str()); SEQ_CHECK(!d.HasParseError(), "own_json_rejected", "not JSON: %s", show(js).c_str());
    All again; SEQ_CHECK(jsonobject2pb(&d, &again, err) == 0 && same_msg(m, again, &where), "round_trip", "jsonobject2pb: %s", where.c_str());
    { rapidjson::Document::AllocatorType al; std::unique_ptr<rapidjson::Value> o(pb2jsonobject(&m, al)); std::string s2; json2string(o.get(), s2); SEQ_CHECK(s2 == js, "jsonobject", "pb2jsonobject gives %s", show(s2).c_str()); }
}
// every field with every boundary value
SEQ_CASE(one_field) { leak_check = true; shard_at = 2; All m; add_field(&m, pick(m.GetDescriptor()->field_count(), "field")); round_trip(m); }
// every pair of fields
SEQ_CASE(two_fields) { shard_at = 2; All m; int n = m.GetDescriptor()->field_count(), a = pick(n, "field"), b = pick(n, "field"); if (b <= a) throw Skip(); if (!thorough && m.GetDescriptor()->field(a)->is_repeated() && m.GetDescriptor()->field(b)->is_repeated()) throw Skip(); add_field(&m, a); add_field(&m, b); round_trip(m); }
// nesting
SEQ_CASE(nested) {
    All m; All* a = &m; int n = pick(thorough ? 300 : 120, "depth"); bool arrays = coin("arrays"); for (int i = 0; i < n; ++i) { a->set_i32(i); a = arrays ? a->add_rdeep() : a->mutable_deep(); } add_field(a, pick(3, "field") + 13);
    All m2; m2.CopyFrom(m); std::string js; pb2json(&m, js); All back; std::string err, where; SEQ_CHECK(json2pb(js, &back, err) == 0, "own_json_rejected", "%s at depth %d", err.c_str(), n); SEQ_CHECK(back.SerializeAsString() == m.SerializeAsString(), "round_trip", "depth %d", n);
}
// each way of writing a value into each field: accepted with the right value exactly if it fits
struct Lit { const char* text; int kind; double num; }; // kind: 0 integer, 1 fraction, 2 string, 3 true, 4 false, 5 null, 6 object, 7 array, 8 not JSON
static const Lit LITS[] = { { "0", 0, 0 }, { "-0", 0, 0 }, { "1", 0, 1 }, { "-1", 0, -1 }, { "5", 0, 5 }, { "-3", 0, -3 }, { "2147483647", 0, 2147483647.0 }, { "2147483648", 0, 2147483648.0 }, { "-2147483648", 0, -2147483648.0 }, { "-2147483649", 0, -2147483649.0 },
    { "4294967295", 0, 4294967295.0 }, { "4294967296", 0, 4294967296.0 }, { "9223372036854775807", 0, 9223372036854775807.0 }, { "9223372036854775808", 0, 9223372036854775808.0 }, { "-9223372036854775808", 0, -9223372036854775808.0 }, { "-9223372036854775809", 0, -9223372036854775809.0 },
    { "18446744073709551615", 0, 18446744073709551615.0 }, { "18446744073709551616", 0, 18446744073709551616.0 }, { "-18446744073709551616", 0, -18446744073709551616.0 }, { "1.5", 1, 1.5 }, { "-2.5e3", 1, -2500 }, { "1e2", 1, 100 }, { "1E400", 1, HUGE_VAL }, { "1e-400", 1, 0 }, { "0.1", 1, 0.1 }, { "123456789012345678901234567890", 0, 123456789012345678901234567890.0 },
    { "\"\"", 2, 0 }, { "\"x\"", 2, 0 }, { "\"RED\"", 2, 0 }, { "\"QQ==\"", 2, 0 }, { "\"QQ=\"", 2, 0 }, { "\"Q Q=\"", 2, 0 }, { "\"\\u0041\\n\"", 2, 0 }, { "\"\\ud83d\\ude00\"", 2, 0 }, { "true", 3, 1 }, { "false", 4, 0 }, { "null", 5, 0 }, { "{}", 6, 0 }, { "{\"r\":true}", 6, 0 }, { "{\"zz\":1}", 6, 0 }, { "[]", 7, 0 }, { "[1]", 7, 0 },
    { "01", 8, 0 }, { "+1", 8, 0 }, { "1.", 8, 0 }, { ".5", 8, 0 }, { "1e", 8, 0 }, { "- 1", 8, 0 }, { "nul", 8, 0 }, { "tru", 8, 0 }, { "\"", 8, 0 }, { "\"\\x\"", 8, 0 }, { "\"\\u12\"", 8, 0 }, { "[", 8, 0 }, { "[1,]", 8, 0 }, { "{\"a\"}", 8, 0 }, { "{a:1}", 8, 0 }, { "\"\\ud83d\"", 8, 0 }, { "", 8, 0 }, { "\x01", 8, 0 } };
static int fits(const gp::FieldDescriptor* f, const Lit& l) { // 1 yes, 0 no, -1 unspecified
    if (l.kind == 8) return 0;
    switch (f->cpp_type()) {
        case gp::FieldDescriptor::CPPTYPE_INT32: return l.kind == 0 ? l.num >= INT32_MIN && l.num <= INT32_MAX : l.kind == 1 ? (l.num == floor(l.num) ? -1 : 0) : 0;
        case gp::FieldDescriptor::CPPTYPE_UINT32: return l.kind == 0 ? l.num >= 0 && l.num <= UINT32_MAX : l.kind == 1 ? (l.num == floor(l.num) ? -1 : 0) : 0;
        case gp::FieldDescriptor::CPPTYPE_INT64: return l.kind == 0 ? (!strcmp(l.text, "-9223372036854775809") || !strcmp(l.text, "9223372036854775808") ? 0 : l.num >= -9223372036854775808.0 && l.num <= 9223372036854775807.0) : l.kind == 1 ? (l.num == floor(l.num) ? -1 : 0) : 0;
        case gp::FieldDescriptor::CPPTYPE_UINT64: return l.kind == 0 ? (!strcmp(l.text, "18446744073709551616") ? 0 : l.num >= 0 && l.num <= 18446744073709551615.0) : l.kind == 1 ? (l.num == floor(l.num) ? -1 : 0) : 0;
        case gp::FieldDescriptor::CPPTYPE_DOUBLE: case gp::FieldDescriptor::CPPTYPE_FLOAT: return l.kind > 1 ? 0 : isinf(l.num) || fabs(l.num) > FLT_MAX ? -1 : 1;
        case gp::FieldDescriptor::CPPTYPE_BOOL: return l.kind == 3 || l.kind == 4;
        case gp::FieldDescriptor::CPPTYPE_STRING: if (l.kind != 2) return 0; if (f->type() == gp::FieldDescriptor::TYPE_BYTES) return !strcmp(l.text, "\"\"") || !strcmp(l.text, "\"QQ==\""); return 1;
        case gp::FieldDescriptor::CPPTYPE_ENUM: return l.kind == 0 ? l.num == 0 || l.num == 5 || l.num == -3 : l.kind == 2 ? !strcmp(l.text, "\"RED\"") : l.kind == 1 && l.num == floor(l.num) ? -1 : 0;
        case gp::FieldDescriptor::CPPTYPE_MESSAGE: if (l.kind != 6) return 0; if (!strcmp(l.text, "{\"zz\":1}")) return 0; if (!strcmp(l.text, "{}")) return -1; return f->message_type()->name() == "Leaf";
        default: return -1;
    }
}
static double value_of(const All& m, const gp::FieldDescriptor* f) {
    const gp::Reflection* r = m.GetReflection(); bool rep = f->is_repeated();
    switch (f->cpp_type()) {
        case gp::FieldDescriptor::CPPTYPE_INT32: return rep ? r->GetRepeatedInt32(m, f, 0) : r->GetInt32(m, f);
        case gp::FieldDescriptor::CPPTYPE_UINT32: return rep ? r->GetRepeatedUInt32(m, f, 0) : r->GetUInt32(m, f);
        case gp::FieldDescriptor::CPPTYPE_INT64: return rep ? r->GetRepeatedInt64(m, f, 0) : r->GetInt64(m, f);
        case gp::FieldDescriptor::CPPTYPE_UINT64: return rep ? r->GetRepeatedUInt64(m, f, 0) : r->GetUInt64(m, f);
        case gp::FieldDescriptor::CPPTYPE_DOUBLE: return rep ? r->GetRepeatedDouble(m, f, 0) : r->GetDouble(m, f);
        case gp::FieldDescriptor::CPPTYPE_FLOAT: return rep ? r->GetRepeatedFloat(m, f, 0) : r->GetFloat(m, f);
        case gp::FieldDescriptor::CPPTYPE_BOOL: return rep ? r->GetRepeatedBool(m, f, 0) : r->GetBool(m, f);
        case gp::FieldDescriptor::CPPTYPE_ENUM: return rep ? r->GetRepeatedEnum(m, f, 0)->number() : r->GetEnum(m, f)->number();
        default: return 0;
    }
}
static void literal(const gp::FieldDescriptor* f, const Lit& l, const std::string& js, int want) {
    All m; std::string err; int r = json2pb(js, &m, err); op();
    if (want == 1) {
        SEQ_CHECK(r == 0, "rejected", "%s rejected: %s", show(js).c_str(), err.c_str());
        if (l.kind == 0 || l.kind == 1 || l.kind == 3 || l.kind == 4) { double v = value_of(m, f), w = f->cpp_type() == gp::FieldDescriptor::CPPTYPE_FLOAT ? (float)l.num : l.num; SEQ_CHECK(v == w || (l.kind == 1 && close_to(v, w)) || (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_DOUBLE && close_to(v, w)), "value", "%s gives %.17g", show(js).c_str(), v); }
        else if (f->cpp_type() == gp::FieldDescriptor::CPPTYPE_STRING) { std::string v = f->is_repeated() ? m.GetReflection()->GetRepeatedString(m, f, 0) : m.GetReflection()->GetString(m, f), w = l.text; w = w.substr(1, w.size() - 2); if (f->type() == gp::FieldDescriptor::TYPE_BYTES) w = w.empty() ? "" : "A"; else if (w == "\\u0041\\n") w = "A\n"; else if (w == "\\ud83d\\ude00") w = "\xf0\x9f\x98\x80"; SEQ_CHECK(v == w, "value", "%s gives %s", show(js).c_str(), show(v).c_str()); }
    } else if (want == 0) SEQ_CHECK(r != 0 && !err.empty(), "accepted", "%s accepted for field of type %s", show(js).c_str(), f->type_name());
}
SEQ_CASE(literals) {
    shard_at = 1; leak_check = true; const gp::Descriptor* d = All::descriptor(); const gp::FieldDescriptor* f = d->field(pick(d->field_count(), "field")); const Lit& l = of(LITS, "literal"); int way = pick(5, "way"); int want = fits(f, l); std::string name = f->name(), t = l.text;
    if (way == 0) { if (f->is_repeated()) { if (l.kind == 7) throw Skip(); want = 0; } literal(f, l, "{\"" + name + "\":" + t + "}", want); }
    else if (way == 1) { if (!f->is_repeated()) throw Skip(); if (t.empty()) throw Skip(); literal(f, l, "{\"" + name + "\":[" + t + "]}", want); }
    else if (way == 2) { if (f->is_repeated()) throw Skip(); literal(f, l, " { \"i32\" : 3 ,\r\n\t\"" + name + "\" : " + t + " } ", name == "i32" ? -1 : want); }
    else if (way == 3) { if (f->is_repeated()) throw Skip(); literal(f, l, "{\"" + name + "\":[" + t + "]}", 0); }
    else { literal(f, l, "{\"" + name + "\":" + t, 0); }
}
// every short document over an alphabet: never a crash, and only objects are accepted
SEQ_CASE(documents) {
    shard_at = 4; static const char* T[] = { "{", "}", "[", "]", ":", ",", "\"i32\"", "1", "\"rs\"", "null", " ", "-", "\"\\u\"", "\"m\"" }; int max = thorough ? 6 : 5, n = pick(max + 1, "tokens"); std::string js; for (int i = 0; i < n; ++i) js += of(T, "token");
    All m; std::string err; int r = json2pb(js, &m, err); if (r == 0) SEQ_CHECK(js.find('{') != std::string::npos && js.find('}') != std::string::npos, "accepted", "%s accepted", show(js).c_str()); else SEQ_CHECK(!err.empty(), "no_reason", "%s rejected without a reason", show(js).c_str());
    if (r == 0) { std::string s2; pb2json(&m, s2); All b; SEQ_CHECK(json2pb(s2, &b, err) == 0 && b.SerializePartialAsString() == m.SerializePartialAsString(), "round_trip", "%s", show(s2).c_str()); }
}
SEQ_CASE(object_without_allocator) {
    shard_at = 1; All m; if (pick(2, "fields")) m.set_i32(1); m.add_rs("some string"); rapidjson::Value* v = pb2jsonobject(&m);
#ifdef SEQ_ASAN
    SEQ_CHECK(!__asan_region_is_poisoned((void*)&*v->MemberBegin(), sizeof(rapidjson::Value) * 2), "pb2jsonobject_dangling", "pb2jsonobject(msg) returns an object whose members are already freed");
#endif
    delete v;
}
// ---- calls over HTTP
struct AllImpl : verif::AllServer { std::vector<std::string> got; All reply; bool fail; std::string reason; AllImpl() : fail(false) {}
    virtual void Call(gp::RpcController* c, const All* q, All* p, gp::Closure* done) { got.push_back(q->SerializeAsString()); p->CopyFrom(reply); if (fail) c->SetFailed(reason); done->Run(); } };
static RpcServer* server() { static RpcServer* s = NULL; if (!s) { RpcServerOptions o; s = new RpcServer(o); } return s; }
static RpcServerStreamPtr stream() { static IOService* io = new IOService; static RpcServerStreamPtr s; if (!s) { s.reset(new RpcServerStream(*io)); s->close("no peer"); } return s; } // not connected: replies are dropped
static RpcRequestPtr decode(const std::string& s) {
    HTTPRpcRequestParser p; char h[5]; snprintf(h, 5, "%s", s.substr(0, 4).c_str()); SEQ_CHECK(p.CheckMagicString(h), "rejected", "HTTP method rejected"); size_t o = 4; int r = 0;
    while (o < s.size() && r == 0) { char* b = (char*)TranBufPool::malloc(4); size_t n = std::min<size_t>(s.size() - o, TranBufPool::capacity(b)); memcpy(b, s.data() + o, n); int used = 0; r = p.Parse(b, (int)n, 0, &used); SEQ_CHECK(r >= 0, "rejected", "request rejected: %s", show(s).c_str()); o += used; TranBufPool::free(b); }
    SEQ_CHECK(r == 1 && o == s.size(), "incomplete", "request not complete"); return p.GetRequest();
}
static std::string percent(const std::string& s) { std::string r; char b[4]; for (size_t i = 0; i < s.size(); ++i) { snprintf(b, sizeof b, "%%%02X", (unsigned char)s[i]); r += b; } return r; }
static std::string num(size_t n) { return std::to_string(n); }
static void reply_ok(const std::string& s, const char* type, std::string* body) {
    size_t e = s.find("\r\n\r\n"); SEQ_CHECK(e != std::string::npos && !s.compare(0, 12, "HTTP/1.1 200"), "http_reply", "not an HTTP reply: %s", show(s).c_str());
    std::string h = s.substr(0, e + 2); SEQ_CHECK(h.find(std::string("\r\nContent-Type: ") + type) != std::string::npos, "content_type", "content type: %s", show(h).c_str());
    SEQ_CHECK(h.find("\r\nContent-Length: " + num(s.size() - e - 4) + "\r\n") != std::string::npos, "content_length", "length header wrong for %zu bytes: %s", s.size() - e - 4, show(h).c_str()); *body = s.substr(e + 4);
}
static void http_case(const All& q) {
    AllImpl impl; ServicePoolPtr pool(new ServicePool(server()->impl().get())); SEQ_CHECK(pool->RegisterService(&impl, false), "harness", "register"); impl.reply = q;
    std::string js, pb = q.SerializeAsString(), where; pb2json(&q, js); All m;
    std::string P = "/verif.AllServer.Call"; std::string reqs[4] = {
        "POST " + P + " HTTP/1.1\r\nContent-Length: " + num(js.size()) + "\r\n\r\n" + js, "GET " + P + "?request=" + percent(js) + " HTTP/1.1\r\n\r\n",
        "POST " + P + " HTTP/1.1\r\nAccept: application/protobuf\r\nContent-Length: " + num(pb.size()) + "\r\n\r\n" + pb, "POST " + P + "?request={} HTTP/1.1\r\nContent-Type: application/json\r\nContent-Length: " + num(js.size()) + "\r\n\r\n" + js };
    for (int i = 0; i < 4; ++i) {
        if (pb.empty() && i == 2) continue; RpcRequestPtr r = decode(reqs[i]); impl.got.clear(); r->ProcessRequest(stream(), pool);
        SEQ_CHECK(impl.got.size() == 1, "not_called", "way %d: method called %zu times", i, impl.got.size()); All g; SEQ_CHECK(g.ParseFromString(impl.got[0]) && same_msg(q, g, &where), "request", "way %d: the method sees another request: %s", i, where.c_str());
        RpcController* c = new RpcController; std::string err, body; ReadBufferPtr b = r->AssembleSucceedResponse(c->impl(), &impl.reply, err); SEQ_CHECK(b, "reply", "no reply: %s", err.c_str()); reply_ok(b->ToString(), i == 2 ? "application/protobuf" : "application/json", &body); delete c;
        All back; if (i == 2) SEQ_CHECK(body == pb, "reply", "protobuf reply differs"); else SEQ_CHECK(json2pb(body, &back, err) == 0 && same_msg(q, back, &where), "reply", "JSON reply differs: %s %s", err.c_str(), where.c_str());
    }
}
SEQ_CASE(http_calls) { shard_at = 2; leak_check = true; All m; add_field(&m, pick(m.GetDescriptor()->field_count(), "field")); http_case(m); }
// request sizes around block boundaries, and empty requests
SEQ_CASE(http_sizes) { shard_at = 1; All m; static const int N[] = { 0, 500, 1000, 4000, 16300, 65000 }; int n = of(N, "size") + pick(60, "more"); if (n) m.set_s(std::string(n, 'k')); http_case(m); }
// what cannot be a request gives an error, and the method is not called
SEQ_CASE(http_errors) {
    shard_at = 1; AllImpl impl; ServicePoolPtr pool(new ServicePool(server()->impl().get())); pool->RegisterService(&impl, false); static const char* B[] = { "[", "1", "null", "\"x\"", "{\"zz\":1}", "{\"i32\":\"x\"}", "{\"i32\":2147483648}", "{\"by\":\"*\"}", "{\"c\":7}", "{} x", "{\"rs\":1}", "[]", "{", "{\"i32\":1}}" }; std::string b = of(B, "body"); int way = pick(3, "way");
    std::string P = "/verif.AllServer.Call", r = way == 0 ? "POST " + P + " HTTP/1.1\r\nContent-Length: " + num(b.size()) + "\r\n\r\n" + b : way == 1 ? "GET " + P + "?request=" + percent(b) + " HTTP/1.1\r\n\r\n" : "POST " + P + " HTTP/1.1\r\nAccept: application/protobuf\r\nContent-Length: 3\r\n\r\n\xff\xff\xff";
    RpcRequestPtr q = decode(r); q->ProcessRequest(stream(), pool); SEQ_CHECK(impl.got.empty(), "called", "the method was called for %s", show(r).c_str());
}
// reasons of any content give a reply that is complete and, as JSON, says the reason
SEQ_CASE(http_reasons) {
    shard_at = 2; static const char A[] = { 'a', '"', '\\', '\n', '\x01', '/', '\t', (char)0xc3, '$', '\0' }; int n = pick(thorough ? 5 : 4, "length"); std::string s; for (int i = 0; i < n; ++i) s += of(A, "char"); static const int E[] = { 1, 0, -1, 1000, INT32_MAX, INT32_MIN }; int code = of(E, "code");
    RpcRequestPtr q = decode(coin("post") ? "POST / HTTP/1.1\r\n\r\n" : "GET / HTTP/1.1\r\n\r\n"); std::string err, body; ReadBufferPtr b = q->AssembleFailedResponse(code, s, err); SEQ_CHECK(b, "reply", "no reply"); reply_ok(b->ToString(), "application/json", &body);
    std::string doc = "[" + body + "]"; rapidjson::Document d; d.Parse<0>(doc.c_str()); SEQ_CHECK(!d.HasParseError() && d.IsArray() && d.Size() == 1 && d[0u].IsString(), "error_json", "not a JSON string: %s", show(body).c_str());
    std::string t(d[0u].GetString(), d[0u].GetStringLength()); SEQ_CHECK(t.find(s) != std::string::npos && t.find(std::to_string(code)) != std::string::npos, "error_json", "%s does not say %d %s", show(t).c_str(), code, show(s).c_str());
}
SEQ_MAIN
