// C14: ReadBuffer / WriteBuffer / TranBufPool against a byte-string model.
#include "seq.h"
#include "vall.pb.h"
#include <sofa/pbrpc/buffer.h>
#include <sofa/pbrpc/tran_buf_pool.h>
#include <memory>
using namespace sofa::pbrpc; using namespace seq;

static char pat(size_t i) { return (char)(i * 131 + (i >> 8) * 7 + 3); }
// reads everything that is left, checking positions
static std::string drain(ReadBuffer* r, size_t from) {
    std::string out; const void* d; int n;
    while (r->Next(&d, &n)) {
        SEQ_CHECK(n > 0, "empty_chunk", "Next returned %d bytes", n);
        out.append((const char*)d, n);
        SEQ_CHECK(r->ByteCount() == (int64)(from + out.size()), "byte_count", "ByteCount %ld after reading %zu bytes", (long)r->ByteCount(), from + out.size());
    }
    SEQ_CHECK(!r->Next(&d, &n), "end", "Next succeeded after the end");
    SEQ_CHECK(r->ByteCount() == (int64)(from + out.size()), "byte_count", "ByteCount moved at the end");
    return out;
}
struct Model { // bytes written so far; known[i] false where the content is unspecified (reserved, not yet set)
    std::string b; std::string known;
    void add(const std::string& s) { b += s; known += std::string(s.size(), 1); }
    void reserve(size_t n) { b += std::string(n, 0); known += std::string(n, 0); }
    bool same(const std::string& o) const { if (o.size() != b.size()) return false; for (size_t i = 0; i < o.size(); ++i) if (known[i] && o[i] != b[i]) return false; return true; }
};
static std::string gen(size_t at, size_t n) { std::string s(n, 0); for (size_t i = 0; i < n; ++i) s[i] = pat(at + i); return s; }

static void write_ops(WriteBuffer& w, Model& m, int steps, int last /* size of the last Next, 0 if none */) {
    for (int i = 0; i < steps; ++i) {
        int op = pick(15, "op"); void* d; int n;
        switch (op) {
        case 0: case 1: case 2: case 3: { // Next, fill, give back none / one byte / all but one / all
            SEQ_CHECK(w.Next(&d, &n), "next_failed", "Next failed"); SEQ_CHECK(n > 0, "empty_chunk", "Next gave %d bytes", n);
            SEQ_CHECK(w.ByteCount() == (int64)m.b.size() + n, "byte_count", "ByteCount %ld, expected %zu", (long)w.ByteCount(), m.b.size() + n);
            std::string s = gen(m.b.size(), n); memcpy(d, s.data(), n);
            int back = op == 0 ? 0 : op == 1 ? 1 : op == 2 ? n - 1 : n;
            if (op) w.BackUp(back);
            m.add(s.substr(0, n - back)); note("Next %d BackUp %d", n, back); break; }
        case 4: case 5: case 6: case 7: case 8: { static const int L[] = { 0, 1, 56, 1016, 3100 }; std::string s = gen(m.b.size() + 17, L[op - 4]); if (op == 6) SEQ_CHECK(w.Append(s), "append_failed", "Append failed"); else SEQ_CHECK(w.Append(s.data(), (int)s.size()), "append_failed", "Append failed"); m.add(s); note("Append %zu", s.size()); break; }
        case 9: case 10: case 11: { static const int L[] = { 1, 24, 2100 }; int64 p = w.Reserve(L[op - 9]); SEQ_CHECK(p == (int64)m.b.size(), "reserve_pos", "Reserve(%d) at %ld, expected %zu", L[op - 9], (long)p, m.b.size()); m.reserve(L[op - 9]); note("Reserve %d", L[op - 9]); break; }
        case 12: case 13: case 14: { // patch: first bytes / last bytes / everything
            if (m.b.empty()) throw Skip();
            size_t n = op == 14 ? m.b.size() : std::min<size_t>(m.b.size(), 30), p = op == 13 ? m.b.size() - n : op == 12 ? std::min<size_t>(m.b.size() - n, 3) : 0;
            std::string s = gen(p + 91 + i, n); w.SetData(p, s.data(), (int)n); for (size_t k = 0; k < n; ++k) { m.b[p + k] = s[k]; m.known[p + k] = 1; } note("SetData %zu+%zu", p, n); break; }
        }
        SEQ_CHECK(w.ByteCount() == (int64)m.b.size(), "byte_count", "ByteCount %ld, expected %zu", (long)w.ByteCount(), m.b.size());
        SEQ_CHECK(w.TotalCapacity() >= w.ByteCount() && w.TotalCapacity() <= w.TotalBlockSize(), "capacity", "capacity %ld of %ld for %ld bytes", (long)w.TotalCapacity(), (long)w.TotalBlockSize(), (long)w.ByteCount());
    }
}
static const size_t FACTORS[] = { 4, 0, 1, 9, 12 };
SEQ_CASE(write_read) {
    leak_check = true; shard_at = 3;
    WriteBuffer w; size_t f = of(FACTORS, "factor"); if (f != 4) w.set_base_block_factor(f);
    SEQ_CHECK(w.base_block_factor() == f, "factor", "factor");
    Model m; write_ops(w, m, thorough ? 5 : 4, 0);
    ReadBuffer r; int64 tot = w.TotalBlockSize(); int blocks = w.BlockCount();
    w.SwapOut(&r);
    SEQ_CHECK(w.ByteCount() == 0 && w.BlockCount() == 0 && w.TotalBlockSize() == 0 && w.TotalCapacity() == 0, "not_empty", "write buffer not empty after SwapOut");
    SEQ_CHECK(r.TotalCount() == (int64)m.b.size(), "total", "TotalCount %ld, expected %zu", (long)r.TotalCount(), m.b.size());
    SEQ_CHECK(r.BlockCount() <= blocks && r.TotalBlockSize() <= tot && r.TotalBlockSize() >= r.TotalCount(), "blocks", "blocks %d of %d, size %ld of %ld", r.BlockCount(), blocks, (long)r.TotalBlockSize(), (long)tot);
    SEQ_CHECK(m.same(r.ToString()), "bytes", "ToString differs from what was written");
    SEQ_CHECK(r.ByteCount() == 0, "byte_count", "ByteCount %ld before reading", (long)r.ByteCount());
    SEQ_CHECK(m.same(drain(&r, 0)), "bytes", "Next() delivers other bytes than were written");
    w.Append("again", 5); ReadBuffer r2; w.SwapOut(&r2); SEQ_CHECK(r2.ToString() == "again", "bytes", "buffer not reusable after SwapOut");
    obs("%d", r.BlockCount());
}
// two buffers' contents chained into one reader, then written again
SEQ_CASE(swap_chain) {
    leak_check = true;
    std::unique_ptr<WriteBuffer> w(new WriteBuffer); w->set_base_block_factor(of(FACTORS, "factor")); Model m1, m2; std::unique_ptr<ReadBuffer> r(new ReadBuffer), all(new ReadBuffer);
    write_ops(*w, m1, thorough ? 3 : 2, 0); w->SwapOut(r.get());
    write_ops(*w, m2, 2, 0); int how = pick(3, "how");
    std::unique_ptr<ReadBuffer> s(new ReadBuffer);
    if (how == 0) { w->SwapOut(r.get()); w.reset(); all->Append(r.get()); r.reset(); }           // same reader
    else if (how == 1) { w->SwapOut(s.get()); all->Append(r.get()); r.reset(); all->Append(s.get()); s.reset(); w.reset(); }
    else { w->SwapOut(s.get()); w.reset(); r->Append(s.get()); all->Append(r.get()); s.reset(); SEQ_CHECK(r->TotalBlockSize() == all->TotalBlockSize() && r->BlockCount() == all->BlockCount(), "blocks", "copy reports other sizes"); if (pick(2, "first")) r.reset(); }
    Model m = m1; m.b += m2.b; m.known += m2.known;
    SEQ_CHECK(all->TotalCount() == (int64)m.b.size(), "total", "TotalCount %ld, expected %zu", (long)all->TotalCount(), m.b.size());
    SEQ_CHECK(m.same(all->ToString()) && m.same(drain(all.get(), 0)), "bytes", "chained buffer differs");
    if (r) SEQ_CHECK(m.same(r->ToString()) && m.same(drain(r.get(), 0)), "bytes", "the other holder sees other bytes");
    obs("%d", how);
}
// every sequence of reads over every chain of up to three chunks
SEQ_CASE(read_ops) {
    leak_check = true; shard_at = 5;
    static const int SZ[] = { 1, 2, 5 };
    ReadBuffer r; std::string all; int chunks = pick(4, "chunks");
    for (int i = 0; i < chunks; ++i) {
        int n = of(SZ, "size"), off = pick(2, "offset") * 3;
        char* b = (char*)TranBufPool::malloc(0); for (int k = 0; k < TranBufPool::capacity(b); ++k) b[k] = (char)('A' + (all.size() + k) % 57);
        r.Append(BufHandle(b, n, off)); all.append(b + off, n); TranBufPool::free(b);
    }
    size_t pos = 0; int last = 0; int steps = thorough ? 7 : 5;
    for (int i = 0; i < steps; ++i) {
        int op = pick(9, "op"); const void* d; int n;
        if (op == 0) {
            bool ok = r.Next(&d, &n); note("Next -> %d %d", ok, ok ? n : 0);
            SEQ_CHECK(ok == (pos < all.size()), "end", "Next returned %d at %zu of %zu", ok, pos, all.size());
            if (ok) { SEQ_CHECK(n > 0 && pos + n <= all.size() && !memcmp(d, all.data() + pos, n), "bytes", "Next delivered wrong bytes at %zu", pos); pos += n; last = n; } else last = 0;
        } else if (op <= 4) {
            if (!last) throw Skip();
            int k = op == 1 ? 0 : op == 2 ? 1 : op == 3 ? last / 2 : last; if ((op == 3 && k <= 1) || (op == 4 && last == 1)) throw Skip();
            r.BackUp(k); pos -= k; last = 0; note("BackUp %d", k);
        } else {
            static const int SK[] = { 0, 1, 2, 6 }; int k = SK[op - 5]; bool ok = r.Skip(k); note("Skip %d -> %d", k, ok);
            SEQ_CHECK(ok == (pos + k <= all.size()), "skip", "Skip(%d) at %zu of %zu returned %d", k, pos, all.size(), ok);
            pos = std::min(all.size(), pos + k); last = 0;
        }
        SEQ_CHECK(r.ByteCount() == (int64)pos, "byte_count", "ByteCount %ld, expected %zu", (long)r.ByteCount(), pos);
        SEQ_CHECK(r.TotalCount() == (int64)all.size(), "total", "TotalCount changed");
    }
    SEQ_CHECK(r.ToString() == all, "bytes", "ToString changed");
    SEQ_CHECK(drain(&r, pos) == all.substr(pos), "bytes", "the rest differs");
    obs("%d %zu", chunks, pos);
}
// holders of shared blocks come and go in every order
SEQ_CASE(sharing) {
    leak_check = true; shard_at = 3;
    std::unique_ptr<ReadBuffer> r[3]; std::string m[3]; char* blk = NULL; std::string bc;
    int steps = thorough ? 7 : 6;
    for (int i = 0; i < steps; ++i) {
        int op = pick(12, "op");
        if (op == 0) { if (blk) throw Skip(); blk = (char*)TranBufPool::malloc(1); bc.clear(); for (int k = 0; k < TranBufPool::capacity(blk); ++k) bc += blk[k] = (char)('a' + (k + i) % 26); }
        else if (op == 1) { if (!blk) throw Skip(); TranBufPool::free(blk); blk = NULL; }
        else if (op < 5) { int k = op - 2; if (!blk) throw Skip(); if (!r[k]) r[k].reset(new ReadBuffer); int off = 7 * k, n = 20 + k; r[k]->Append(BufHandle(blk, n, off)); m[k] += bc.substr(off, n); }
        else if (op < 8) { int k = op - 5; if (!r[k]) throw Skip(); r[k].reset(); m[k].clear(); }
        else { static const int A[][2] = { { 0, 1 }, { 1, 2 }, { 2, 0 }, { 0, 2 } }; int x = A[op - 8][0], y = A[op - 8][1]; if (!r[y]) throw Skip(); if (!r[x]) r[x].reset(new ReadBuffer); r[x]->Append(r[y].get()); m[x] += m[y]; }
        for (int k = 0; k < 3; ++k) if (r[k]) { SEQ_CHECK(r[k]->ToString() == m[k], "bytes", "holder %d sees other bytes", k); SEQ_CHECK(r[k]->TotalCount() == (int64)m[k].size(), "total", "holder %d: TotalCount %ld", k, (long)r[k]->TotalCount()); }
    }
    if (blk) TranBufPool::free(blk);
    obs("%zu", m[0].size());
}
// protobuf messages, empty ones included, serialized into a buffer (after a reserved head or other messages) and parsed from it
SEQ_CASE(messages) {
    leak_check = true;
    WriteBuffer w; size_t f = of(FACTORS, "factor"); if (f != 4) w.set_base_block_factor(f);
    std::string want; int n = 1 + pick(3, "messages"); std::vector<std::string> parts;
    if (coin("head")) { w.Reserve(24); want = std::string(24, 'H'); w.SetData(0, want.data(), 24); }
    static const int SZ[] = { -1, 0, 1, 30, 1000, 3000, 9000, 40000 };
    for (int i = 0; i < n; ++i) { verif::All m; int k = of(SZ, "size"); if (k >= 0) m.set_s(std::string(k, 'a' + i)); SEQ_CHECK(m.SerializeToZeroCopyStream(&w), "serialize", "cannot serialize"); parts.push_back(m.SerializeAsString()); want += parts.back(); SEQ_CHECK(w.ByteCount() == (int64)want.size(), "byte_count", "ByteCount %ld after %zu bytes", (long)w.ByteCount(), want.size()); }
    ReadBuffer r; w.SwapOut(&r); SEQ_CHECK(r.ToString() == want, "bytes", "other bytes than serialized");
    if (want.size() > 24 && want[0] == 'H') r.Skip(24);
    else if (want.size() == 24) r.Skip(24);
    for (int i = 0; i < n; ++i) { verif::All m; if (parts[i].empty()) continue; SEQ_CHECK(m.ParseFromBoundedZeroCopyStream(&r, (int)parts[i].size()) && m.SerializeAsString() == parts[i], "parse", "message %d of %d does not parse back", i, n); }
    SEQ_CHECK(r.ByteCount() == r.TotalCount(), "byte_count", "%ld of %ld bytes read", (long)r.ByteCount(), (long)r.TotalCount());
}
SEQ_MAIN
