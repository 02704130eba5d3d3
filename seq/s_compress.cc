// C13: compressing / decompressing streams against the identity.
#include "seq.h"
#include "vall.pb.h"
#include <dlfcn.h>
#include <zlib.h>
#include <memory>
#include <sofa/pbrpc/buffer.h>
#include <sofa/pbrpc/compressed_stream.h>
#include <sofa/pbrpc/rpc_option.pb.h>
#include "vecho.pb.h"
using namespace sofa::pbrpc; using namespace seq;
#include <sanitizer/asan_interface.h>
// zlib is not instrumented: check the memory it is handed
extern "C" int inflate(z_streamp s, int f) {
    static int (*real)(z_streamp, int); if (!real) real = (int (*)(z_streamp, int))dlsym(RTLD_NEXT, "inflate");
    if (s->avail_out && __asan_region_is_poisoned(s->next_out, s->avail_out)) { fprintf(stderr, "ERROR: AddressSanitizer: bad-output-buffer given to inflate\n"); abort(); }
    if (s->avail_in && __asan_region_is_poisoned((void*)s->next_in, s->avail_in)) { fprintf(stderr, "ERROR: AddressSanitizer: bad-input-buffer given to inflate\n"); abort(); }
    return real(s, f);
}
extern "C" int deflate(z_streamp s, int f) {
    static int (*real)(z_streamp, int); if (!real) real = (int (*)(z_streamp, int))dlsym(RTLD_NEXT, "deflate");
    if (s->avail_out && __asan_region_is_poisoned(s->next_out, s->avail_out)) { fprintf(stderr, "ERROR: AddressSanitizer: bad-output-buffer given to deflate\n"); abort(); }
    if (s->avail_in && __asan_region_is_poisoned((void*)s->next_in, s->avail_in)) { fprintf(stderr, "ERROR: AddressSanitizer: bad-input-buffer given to deflate\n"); abort(); }
    return real(s, f);
}

static const CompressType TYPES[] = { CompressTypeGzip, CompressTypeZlib, CompressTypeSnappy, CompressTypeLZ4 };
static const char* TN[] = { "none", "gzip", "zlib", "snappy", "lz4" };
// an underlying stream that hands out chunks of a given size
struct Sink : google::protobuf::io::ZeroCopyOutputStream {
    size_t chunk; std::vector<std::string> parts; int64_t n; Sink(size_t c) : chunk(c), n(0) {}
    size_t used; // chunk 3: alternately 3 and 1000 bytes (zlib repeats flush markers for ever when every chunk is smaller than 7 bytes)
    bool Next(void** d, int* s) { size_t k = chunk == 3 && parts.size() % 2 ? 1000 : chunk; parts.push_back(std::string(k, '?')); *d = &parts.back()[0]; *s = (int)k; n += k; return true; }
    void BackUp(int c) { SEQ_CHECK(!parts.empty() && c >= 0 && (size_t)c <= parts.back().size(), "sub_backup", "BackUp(%d) on the underlying stream", c); parts.back().resize(parts.back().size() - c); n -= c; }
    int64_t ByteCount() const { return n; }
    std::string str() { std::string r; for (size_t i = 0; i < parts.size(); ++i) r += parts[i]; return r; }
};
struct Source : google::protobuf::io::ZeroCopyInputStream {
    std::string s; size_t pos, chunk; std::unique_ptr<char[]> cur; int last; Source(const std::string& b, size_t c) : s(b), pos(0), chunk(c), last(0) {}
    bool Next(const void** d, int* n) { if (pos == s.size()) { last = 0; return false; } size_t k = std::min(chunk, s.size() - pos); cur.reset(new char[k]); memcpy(cur.get(), s.data() + pos, k); *d = cur.get(); *n = last = (int)k; pos += k; return true; }
    void BackUp(int c) { SEQ_CHECK(c >= 0 && c <= last, "sub_backup", "BackUp(%d) on the underlying stream after Next gave %d", c, last); pos -= c; last = 0; }
    bool Skip(int c) { size_t k = std::min<size_t>(c, s.size() - pos); pos += k; last = 0; return k == (size_t)c; }
    int64_t ByteCount() const { return pos; }
};
static std::string content(int cls, size_t n) {
    std::string s(n, 0); unsigned x = 12345;
    for (size_t i = 0; i < n; ++i) { x = x * 1103515245u + 12345u; s[i] = cls == 0 ? 'a' : cls == 1 ? (char)(x >> 16) : cls == 2 ? (char)('a' + i % 7) : ((i / 300) % 2 ? (char)(x >> 18) : (char)(i / 64)); }
    return s;
}
static const size_t CH[] = { 65536, 1000, 5, 1 };   // chunks of the underlying stream that is read
static const size_t CO[] = { 65536, 1000, 3, 16 };  // and of the one that is written
static std::string read_all(AbstractCompressedInputStream* is, int how, int64_t base = 0) {
    std::string out; const void* d; int n; int stuck = 0;
    while (is->Next(&d, &n)) {
        SEQ_CHECK(n >= 0, "bad_size", "Next returned size %d", n);
        if (n == 0) { SEQ_CHECK(++stuck < 100000, "endless", "Next keeps returning nothing"); continue; }
        stuck = 0;
        int keep = n;
        if (how == 1) keep = (n + 1) / 2;
        if (how == 2) keep = n > 4000 ? n - 7 : n > 16 ? n - 16 : n;
        out.append((const char*)d, keep);
        if (keep < n) is->BackUp(n - keep);
        SEQ_CHECK(is->ByteCount() == base + (int64_t)out.size(), "in_byte_count", "ByteCount %ld after reading %zu bytes", (long)is->ByteCount(), out.size());
        SEQ_CHECK(out.size() <= (64u << 20), "endless", "decompressed data never ends");
    }
    SEQ_CHECK(is->ByteCount() == base + (int64_t)out.size(), "in_byte_count", "ByteCount %ld at the end of %zu bytes", (long)is->ByteCount(), out.size());
    return out;
}
static void write_some(AbstractCompressedOutputStream* os, const std::string& s, size_t* done, size_t maxn, size_t quota) {
    void* d; int n; SEQ_CHECK(os->Next(&d, &n), "next_failed", "Next failed"); SEQ_CHECK(n > 0, "bad_size", "Next gave %d", n);
    size_t k = std::min(std::min<size_t>(n, s.size() - *done), std::min(maxn, quota)); memcpy(d, s.data() + *done, k); memset((char*)d + k, 0x5a, n - k);
    if (k < (size_t)n) os->BackUp(n - (int)k); *done += k;
    SEQ_CHECK(os->ByteCount() == (int64_t)*done, "out_byte_count", "ByteCount %ld after writing %zu bytes", (long)os->ByteCount(), *done);
}
static void check_back(CompressType t, const std::string& z, const std::string& s, size_t chunk, int how) {
    Source src(z, chunk);
    { std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&src, t)); std::string o = read_all(is.get(), how);
      SEQ_CHECK(o == s, "round_trip", "%s: %zu bytes came back as %zu%s", TN[t], s.size(), o.size(), o.size() == s.size() ? " different ones" : ""); }
}
// every size around every boundary, every content, every chunking of both underlying streams, every writing and reading pattern
SEQ_CASE(round_trip) {
    leak_check = true;
    static const size_t N[] = { 0, 1, 2, 3, 4, 5, 12, 13, 14, 15, 16, 17, 60, 64, 127, 128, 255, 270, 271, 4095, 65535, 65536, 65537, 65546, 65547, 65548, 131071, 131072, 131073, 200000 };
    CompressType t = of(TYPES, "type"); int cls = pick(4, "content"); size_t n = of(N, "size"), co = of(CO, "outchunk"), ci = of(CH, "inchunk");
    int wr = pick(3, "write"), rd = pick(3, "read"); if (n > 5000 && (co < 1000 || ci < 1000) && cls % 2 == 0) throw Skip(); if (n > 5000 && wr == 2 && !thorough) throw Skip();
    std::string s = content(cls, n); Sink sink(co);
    { std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&sink, t)); size_t done = 0; static const size_t Q[] = { 1u << 30, 777, 13 };
      while (done < n) write_some(os.get(), s, &done, Q[wr], n);
      os->Flush(); }
    check_back(t, sink.str(), s, ci, rd);
    obs("%d", (int)t);
}
// every sequence of writes (whole, all but one byte, one byte, nothing) and flushes
SEQ_CASE(write_patterns) {
    leak_check = true;
    CompressType t = of(TYPES, "type"); size_t co = CO[pick(3, "chunk")]; Sink sink(co); std::string s = content(3, 700000); size_t done = 0; int steps = thorough ? 5 : 4; bool closed = false;
    { std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&sink, t));
      for (int i = 0; i < steps; ++i) {
          int op = pick(6, "op");
          if (op == 4) { os->Flush(); SEQ_CHECK(os->ByteCount() == (int64_t)done, "out_byte_count", "ByteCount %ld after Flush, %zu written", (long)os->ByteCount(), done); }
          else if (op == 5) { int n; void* d; SEQ_CHECK(os->Next(&d, &n), "next_failed", "Next failed"); int k = std::min(n, 7); memcpy(d, s.data() + done, k); if (n > k) os->BackUp(n - k); done += k; }
          else { static const size_t Q[] = { 1u << 30, 65535, 1, 0 }; write_some(os.get(), s, &done, Q[op], s.size()); }
      }
      if (pick(2, "close")) { os->Close(); } else os->Flush(); }
    (void)closed; check_back(t, sink.str(), s.substr(0, done), 1000, 0);
    obs("%zu", done);
}
// every sequence of reads, partial reads and skips
SEQ_CASE(read_patterns) {
    leak_check = true;
    static const size_t N[] = { 150000, 131072, 40, 0 };
    CompressType t = of(TYPES, "type"); size_t n = of(N, "size"); std::string s = content(3, n); Sink sink(65536);
    { std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&sink, t)); size_t done = 0; while (done < n) write_some(os.get(), s, &done, 1u << 30, n); os->Flush(); }
    Source src(sink.str(), CH[pick(2, "chunk")]); size_t pos = 0; int last = 0;
    { std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&src, t));
      int steps = thorough ? 6 : 4;
      for (int i = 0; i < steps; ++i) {
          int op = pick(8, "op"); const void* d; int k;
          if (op == 0) {
              bool ok; do ok = is->Next(&d, &k); while (ok && k == 0);
              SEQ_CHECK(ok == (pos < n), "end", "%s: Next returned %d at %zu of %zu", TN[t], ok, pos, n);
              last = ok ? k : 0; if (ok) { SEQ_CHECK(pos + k <= n && !memcmp(d, s.data() + pos, k), "bytes", "%s: wrong bytes at %zu", TN[t], pos); pos += k; }
          } else if (op <= 3) { if (!last) throw Skip(); int b = op == 1 ? 1 : op == 2 ? last / 2 : last; is->BackUp(b); pos -= b; last = 0; }
          else { static const int SK[] = { 0, 1, 1000, 70000 }; int c = SK[op - 4]; bool ok = is->Skip(c); SEQ_CHECK(ok == (pos + c <= n), "skip", "%s: Skip(%d) at %zu of %zu returned %d", TN[t], c, pos, n, ok); pos = std::min(n, pos + c); last = 0; }
          SEQ_CHECK(is->ByteCount() == (int64_t)pos, "in_byte_count", "%s: ByteCount %ld at position %zu (op %d)", TN[t], (long)is->ByteCount(), pos, op);
      }
      std::string rest = read_all(is.get(), 3, pos); SEQ_CHECK(rest == s.substr(pos), "bytes", "%s: the rest after %zu is wrong", TN[t], pos); }
}
static std::string read_lax(AbstractCompressedInputStream* is, size_t limit) { std::string out; const void* d; int n; int k = 0; while (out.size() < limit && ++k < 200000 && is->Next(&d, &n)) { SEQ_CHECK(n >= 0, "bad_size", "Next returned size %d", n); out.append((const char*)d, n); } SEQ_CHECK(k < 200000, "endless", "reading never ends"); return out; }
// reading stops anywhere, then the stream is destroyed
SEQ_CASE(abandoned) {
    leak_check = true;
    static const size_t N[] = { 400000, 100000, 10, 0 };
    CompressType t = of(TYPES, "type"); size_t n = of(N, "size"); int cls = pick(4, "content"); Sink sink(65536); std::string s = content(cls, n);
    { std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&sink, t)); size_t done = 0; while (done < n) write_some(os.get(), s, &done, 1u << 30, n); os->Flush(); }
    Source src(sink.str(), CH[pick(3, "chunk")]);
    { std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&src, t)); int k = pick(9, "reads"); const void* d; int m; for (int i = 0; i < k; ++i) if (!is->Next(&d, &m)) break; else if (i == k - 1 && m && pick(2, "backup")) is->BackUp(m / 2 + 1); }
}
// one byte of the compressed data changed in every way, removed, or everything after it cut off; short streams of every content
SEQ_CASE(corrupt) {
    leak_check = true; shard_at = 3;
    static const size_t N[] = { 0, 1, 30, 300 }; CompressType t = of(TYPES, "type"); int cls = pick(4, "content"); size_t n = of(N, "size"); std::string s = content(cls, n); Sink sink(65536);
    { std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&sink, t)); size_t done = 0; while (done < n) write_some(os.get(), s, &done, 1u << 30, n); os->Flush(); }
    std::string z = sink.str(); if (z.empty()) throw Skip();
    size_t m = std::min<size_t>(z.size(), thorough ? 400 : 90); int p = pick((int)m, "pos"), v = pick(258, "value");
    if (v < 256) { if ((unsigned char)z[p] == v) throw Skip(); z[p] = (char)v; } else if (v == 256) z.erase(p, 1); else z.resize(p);
    Source src(z, CH[pick(2, "chunk")]); std::string o;
    { std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&src, t)); o = read_lax(is.get(), 8u << 20); }
    if (v == 257) SEQ_CHECK(o.size() <= s.size() && !s.compare(0, o.size(), o), "bytes", "%s: truncated data decompressed to something else", TN[t]);
}
// arbitrary compressed data: all short strings over a small alphabet after a plausible header
SEQ_CASE(garbage) {
    leak_check = true; shard_at = 3;
    CompressType t = of(TYPES, "type"); static const unsigned char A[] = { 0, 1, 0x0f, 0x10, 0x1f, 0x40, 0xf0, 0xff };
    std::string z; int n = thorough ? 6 : 5; std::string b; int len = pick(n + 1, "len"); for (int i = 0; i < len; ++i) b += (char)of(A, "byte");
    int frame = pick(3, "frame");
    if (t == CompressTypeSnappy || t == CompressTypeLZ4) { if (frame == 2) z = b; else { if (frame == 1) b += std::string(40, 'x'); z = std::string(1, (char)b.size()) + b; z += z; } }
    else { z = t == CompressTypeGzip ? std::string("\x1f\x8b\x08\0\0\0\0\0\0\x03", 10) : std::string("\x78\x9c", 2); if (frame == 2) z.clear(); z += b; if (frame == 1) z += std::string(40, 'x'); }
    Source src(z, 65536); { std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&src, t)); read_lax(is.get(), 8u << 20); }
}
// protobuf messages of every size near the block boundaries, through real buffers, as the library does it
SEQ_CASE(messages) {
    leak_check = true;
    CompressType t = of(TYPES, "type"); int cls = pick(4, "content"); static const int BASE[] = { 0, 65536, 131072 }; int base = of(BASE, "base"); int n = base - (base ? 40 : 0) + pick(base ? 60 : 40, "size");
    verif::EchoRequest q, p; q.set_id(7); q.set_must(1); q.set_data(content(cls, n)); if (n == 0) { q.clear_data(); q.clear_id(); }
    if (n == 1 && base == 0 && coin("empty message")) { // serializes to nothing
        verif::All e, f; WriteBuffer w; { std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&w, t)); SEQ_CHECK(e.SerializeToZeroCopyStream(os.get()), "serialize", "cannot serialize"); os->Flush(); }
        ReadBuffer r; w.SwapOut(&r); std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&r, t)); SEQ_CHECK(f.ParseFromZeroCopyStream(is.get()), "round_trip", "%s: empty message cannot be parsed", TN[t]); return;
    }
    WriteBuffer w; w.set_base_block_factor(pick(2, "factor") ? 0 : 4);
    { std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&w, t)); SEQ_CHECK(q.SerializeToZeroCopyStream(os.get()), "serialize", "cannot serialize"); os->Flush(); }
    ReadBuffer r; w.SwapOut(&r);
    { std::unique_ptr<AbstractCompressedInputStream> is(get_compressed_input_stream(&r, t)); SEQ_CHECK(p.ParseFromZeroCopyStream(is.get()), "round_trip", "%s: message with %d bytes cannot be parsed", TN[t], n); }
    SEQ_CHECK(p.SerializeAsString() == q.SerializeAsString(), "round_trip", "%s: message with %d bytes changed", TN[t], n);
}
// concatenated gzip or zlib streams read as one
SEQ_CASE(members) {
    leak_check = true;
    CompressType t = TYPES[pick(2, "type")]; static const size_t N[] = { 0, 1, 100, 65536, 150000 }; std::string z, s; int parts = 1 + pick(3, "parts");
    for (int i = 0; i < parts; ++i) { Sink sink(65536); size_t n = of(N, "size"); std::string p = content(2 + i % 2, n); { std::unique_ptr<AbstractCompressedOutputStream> os(get_compressed_output_stream(&sink, t)); size_t done = 0; while (done < n) write_some(os.get(), p, &done, 1u << 30, n); } z += sink.str(); s += p; }
    check_back(t, z, s, CH[pick(3, "chunk")], pick(3, "read"));
}
SEQ_MAIN
