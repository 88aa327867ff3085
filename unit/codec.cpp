// Buffers against a byte-array model (C15); encodings: round trip and garbage (C16).
#include <sstream>
#include "unit.hpp"
#include "cornerstone.hxx"
using namespace cornerstone;
using namespace unit;

// fresh memory has changing contents, so that bytes an encoder leaves unwritten differ between two encodings of one value
static thread_local unsigned char g_fill = 0x5a;
void* operator new[](size_t n)
{
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (n <= (1u << 22)) memset(p, g_fill, n);
    g_fill = (unsigned char)(g_fill * 5 + 1);
    return p;
}
void operator delete[](void* p) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }

typedef unsigned char uc;
struct MBuf
{
    bufptr b;
    std::string m; // contents
    size_t pos = 0;
    MBuf() : b(nullptr, nullptr) {}
};
static size_t gen_cap(Rng& r)
{
    switch (r.below(8))
    {
    case 0: return r.below(5);
    case 1: case 2: return r.below(40);
    case 3: return r.range(0x7fe0, 0x8020);
    case 4: return r.range(0xfff0, 0x10010);
    case 5: return r.below(600);
    case 6: return r.chance(0.2) ? r.range(0x10000, 0x30000) : r.range(0x7ff8, 0x8008);
    default: return r.below(16);
    }
}
static std::string content(buffer& b) { return std::string((const char*)b.data() - b.pos(), b.size()); }
static bool check(MBuf& x, const char* after, bool full)
{
    if (x.b->size() != x.m.size()) { violate("buffer-size", S("after %s: size() is %zu, expected %zu", after, x.b->size(), x.m.size())); return false; }
    if (x.b->pos() != x.pos) { violate("buffer-pos", S("after %s: pos() is %zu, expected %zu (capacity %zu)", after, x.b->pos(), x.pos, x.m.size())); return false; }
    const char* base = (const char*)x.b->data() - x.pos;
    size_t a = 0, e = x.m.size();
    if (!full && e > 4096) { a = x.pos > 600 ? x.pos - 600 : 0; e = std::min(e, x.pos + 600); }
    if (memcmp(base + a, x.m.data() + a, e - a) != 0)
    {
        size_t i = a;
        while (base[i] == x.m[i]) ++i;
        violate("buffer-content", S("after %s: byte %zu is %02x, expected %02x (position %zu, capacity %zu)", after, i, (uc)base[i], (uc)x.m[i], x.pos, x.m.size()));
        return false;
    }
    return true;
}
static MBuf fresh(size_t cap, Rng& r)
{
    MBuf x;
    x.b = buffer::alloc(cap);
    x.m = r.bytes(std::min<size_t>(cap, 64));
    while (x.m.size() < cap) x.m += x.m.substr(0, std::min(x.m.size(), cap - x.m.size()));
    if (cap) memcpy(x.b->data(), x.m.data(), cap);
    return x;
}
// runs an access; true if it did not report an error
template <typename F> static bool attempt(F f)
{
    try { f(); return true; }
    catch (const std::exception&) { return false; }
}
static Out run_buffer(uint64_t seed)
{
    Rng r(seed);
    uint64_t h = 7;
    std::vector<MBuf> bs;
    bs.reserve(8);
    int n = (int)r.range(1, 3);
    for (int i = 0; i < n; ++i) bs.push_back(fresh(gen_cap(r), r));
    for (auto& x : bs) if (!check(x, "alloc", true)) return {h};
    if (seed % 400 == 7)
    {
        // the largest capacities
        if (attempt([&] { buffer::alloc(0x80000000ull + r.below(3)); })) { violate("buffer-too-large", "a capacity of 2^31 or more was accepted"); return {h}; }
        if (attempt([&] { buffer::alloc(0x100000000ull + r.below(30)); })) { violate("buffer-too-large", "a capacity of 2^32 or more was accepted"); return {h}; }
        size_t cap = 0x7fffffff;
        bufptr b(buffer::alloc(cap));
        if (b->size() != cap || b->pos() != 0) { violate("buffer-size", S("capacity %zu: size() is %zu, pos() is %zu", cap, b->size(), b->pos())); return {h}; }
        b->pos(cap - 8);
        b->put((ulong)0x1122334455667788ull);
        if (b->pos() != cap) { violate("buffer-pos", S("at the end of a buffer of %zu bytes: pos() is %zu", cap, b->pos())); return {h}; }
        if (attempt([&] { b->put((byte)1); })) { violate("buffer-overflow-accepted", "a byte was put at the end of a full buffer"); return {h}; }
        b->pos(cap - 8);
        if (b->get_ulong() != 0x1122334455667788ull) { violate("buffer-content", "value at the end of the largest buffer changed"); return {h}; }
        stat("largest_buffers");
    }
    int steps = (int)r.range(20, 150);
    for (int s = 0; s < steps; ++s)
    {
        MBuf& x = bs[r.below(bs.size())];
        size_t avail = x.m.size() - x.pos;
        const char* name = "";
        int op = (int)r.below(17);
        h = fnvv(op, h);
        h = fnvv(x.pos, h);
        bool ok = true, fits = true;
        stat("buffer_ops");
        switch (op)
        {
        case 0: case 1:
        {
            // position
            size_t p;
            switch (r.below(6)) { case 0: p = 0; break; case 1: p = x.m.size(); break; case 2: p = x.m.size() - std::min<size_t>(x.m.size(), r.below(12)); break; case 3: p = x.m.size() + r.range(1, 70000); break; case 4: p = r.chance(0.5) ? ~0ull - r.below(9) : 0x80000000ull << r.below(4); break; default: p = r.below(x.m.size() + 1); }
            name = "pos(p)";
            TR("pos(%zu) of %zu", p, x.m.size());
            x.b->pos(p);
            x.pos = std::min(p, x.m.size());
            break;
        }
        case 2:
        {
            byte v = (byte)r.e();
            name = "put(byte)";
            fits = avail >= 1;
            ok = attempt([&] { x.b->put(v); });
            if (fits) { x.m[x.pos] = (char)v; x.pos += 1; }
            break;
        }
        case 3: case 4:
        {
            int32 v = (int32)r.word();
            name = "put(int32)";
            fits = avail >= 4;
            ok = attempt([&] { x.b->put(v); });
            if (fits) { for (int i = 0; i < 4; ++i) x.m[x.pos + i] = (char)((unsigned)v >> (8 * i)); x.pos += 4; }
            break;
        }
        case 5: case 6:
        {
            ulong v = r.word();
            name = "put(ulong)";
            fits = avail >= 8;
            ok = attempt([&] { x.b->put(v); });
            if (fits) { for (int i = 0; i < 8; ++i) x.m[x.pos + i] = (char)(v >> (8 * i)); x.pos += 8; }
            break;
        }
        case 7:
        {
            size_t len = r.chance(0.2) ? 0 : r.chance(0.4) && avail < 100000 ? avail + r.below(4) - std::min<size_t>(avail, 2) : r.below(20);
            std::string v = r.bytes(len);
            for (auto& c : v) if (!c) c = 'x';
            name = "put(string)";
            fits = avail >= len + 1;
            TR("put string of %zu at %zu of %zu", len, x.pos, x.m.size());
            ok = attempt([&] { x.b->put(v); });
            if (fits) { memcpy(&x.m[x.pos], v.data(), len); x.m[x.pos + len] = 0; x.pos += len + 1; }
            break;
        }
        case 8:
        {
            MBuf y;
            bool other = bs.size() > 1 && r.chance(0.4);
            MBuf* src = &y;
            if (other) { src = &bs[r.below(bs.size())]; if (src == &x) { src = &y; other = false; } }
            if (!other)
            {
                size_t cap = r.chance(0.5) && avail < 200000 ? avail + r.below(3) - std::min<size_t>(avail, 1) : gen_cap(r);
                y = fresh(cap, r);
                if (r.chance(0.3)) { y.pos = r.below(cap + 1); y.b->pos(y.pos); }
            }
            name = "put(buffer)";
            size_t sn = src->m.size() - src->pos;
            fits = avail >= sn;
            TR("put buffer %zu..%zu at %zu of %zu", src->pos, src->m.size(), x.pos, x.m.size());
            ok = attempt([&] { x.b->put(*src->b); });
            if (fits) { x.m.replace(x.pos, sn, src->m, src->pos, sn); x.pos += sn; }
            if (!check(*src, "being the source of put(buffer)", true)) return {h};
            break;
        }
        case 9:
        {
            byte v = 0;
            name = "get_byte";
            fits = avail >= 1;
            ok = attempt([&] { v = x.b->get_byte(); });
            if (fits && ok) { if (v != (uc)x.m[x.pos]) { violate("buffer-read", S("get_byte at %zu gave %02x, expected %02x", x.pos, v, (uc)x.m[x.pos])); return {h}; } x.pos += 1; }
            break;
        }
        case 10:
        {
            int32 v = 0;
            name = "get_int";
            fits = avail >= 4;
            ok = attempt([&] { v = x.b->get_int(); });
            if (fits && ok)
            {
                unsigned e = 0;
                for (int i = 0; i < 4; ++i) e |= (unsigned)(uc)x.m[x.pos + i] << (8 * i);
                if ((unsigned)v != e) { violate("buffer-read", S("get_int at %zu gave %08x, expected %08x", x.pos, (unsigned)v, e)); return {h}; }
                x.pos += 4;
            }
            break;
        }
        case 11:
        {
            ulong v = 0;
            name = "get_ulong";
            fits = avail >= 8;
            ok = attempt([&] { v = x.b->get_ulong(); });
            if (fits && ok)
            {
                ulong e = 0;
                for (int i = 0; i < 8; ++i) e |= (ulong)(uc)x.m[x.pos + i] << (8 * i);
                if (v != e) { violate("buffer-read", S("get_ulong at %zu gave %llx, expected %llx", x.pos, (unsigned long long)v, (unsigned long long)e)); return {h}; }
                x.pos += 8;
            }
            break;
        }
        case 12:
        {
            name = "get_str";
            const char* v = nullptr;
            size_t z = x.m.find('\0', x.pos);
            fits = z != std::string::npos && x.pos < x.m.size();
            bool ret = attempt([&] { v = x.b->get_str(); });
            ok = ret && v != nullptr;
            TR("get_str at %zu of %zu (terminator at %zd) -> %s", x.pos, x.m.size(), (ssize_t)z, v ? "string" : "null");
            if (fits && ok)
            {
                std::string e = x.m.substr(x.pos, z - x.pos);
                if (e != v) { violate("buffer-read", S("get_str at %zu gave a string of %zu bytes, expected %zu bytes", x.pos, strlen(v), e.size())); return {h}; }
                x.pos = z + 1;
            }
            break;
        }
        case 13:
        {
            // read into another buffer, from that one's position to its end
            size_t cap = r.chance(0.6) && avail < 200000 ? avail + r.below(4) - std::min<size_t>(avail, 2) : gen_cap(r);
            MBuf y = fresh(cap, r);
            if (r.chance(0.4)) { y.pos = r.below(cap + 1); y.b->pos(y.pos); }
            size_t want = y.m.size() - y.pos;
            name = "get(buffer)";
            fits = avail >= want;
            TR("get buffer of %zu at %zu of %zu", want, x.pos, x.m.size());
            ok = attempt([&] { x.b->get(y.b); });
            if (fits && ok)
            {
                y.m.replace(y.pos, want, x.m, x.pos, want);
                x.pos += want;
                y.pos = y.b->pos(); // where the target's position is afterwards is not specified
            }
            if (!check(y, "being the target of get(buffer)", true)) return {h};
            break;
        }
        case 14:
        {
            // a copy holds what is left
            name = "copy";
            MBuf y;
            ok = attempt([&] { y.b = buffer::copy(*x.b); });
            if (!ok) break;
            y.m = x.m.substr(x.pos);
            if (!check(y, "copy", true)) return {h};
            if (!y.m.empty())
            {
                // independent storage
                y.b->put((byte)~(uc)y.m[0]);
                if (!check(x, "changing its copy", true)) return {h};
            }
            if (bs.size() < 4 && r.chance(0.3)) { y.b->pos(0); if (!y.m.empty()) y.m[0] = (char)~y.m[0]; bs.push_back(std::move(y)); }
            break;
        }
        case 15:
        {
            name = "operator<<";
            std::stringstream ss;
            if (r.chance(0.1)) { ss.setstate(std::ios::failbit); fits = false; }
            ok = attempt([&] { ss << *x.b; });
            if (ok && fits)
            {
                if (ss.str() != x.m.substr(x.pos)) { violate("buffer-stream", S("%zu bytes written to a stream, expected the %zu from position %zu on", ss.str().size(), avail, x.pos)); return {h}; }
                x.pos = x.b->pos() == x.m.size() ? x.m.size() : x.pos;
            }
            break;
        }
        default:
        {
            name = "operator>>";
            size_t have = r.chance(0.7) ? avail + r.below(9) : r.below(avail + 1);
            std::string in = r.bytes(std::min<size_t>(have, 64));
            while (in.size() < have) in += in.substr(0, std::min(in.size(), have - in.size()));
            std::stringstream ss(in);
            fits = have >= avail;
            if (r.chance(0.05)) { ss.setstate(std::ios::failbit); fits = false; have = 0; }
            TR(">> %zu bytes available, %zu wanted at %zu of %zu", have, avail, x.pos, x.m.size());
            ok = attempt([&] { ss >> *x.b; });
            if (fits && ok) { x.m.replace(x.pos, avail, in, 0, avail); x.pos = x.b->pos() == x.m.size() ? x.m.size() : x.pos; }
            else if (!ok)
            {
                // what a failed read leaves in the part it was to fill is open
                size_t k = std::min(have, avail);
                if (k) x.m.replace(x.pos, k, std::string((const char*)x.b->data(), k));
            }
        }
        }
        if (ok != fits)
        {
            if (ok) violate("buffer-overflow-accepted", S("%s at position %zu of %zu: does not fit, but no error", name, x.pos, x.m.size()));
            else violate("buffer-access-refused", S("%s at position %zu of %zu: fits, but was refused", name, x.pos, x.m.size()));
            return {h};
        }
        if (!fits) stat("buffer_refused");
        if (!check(x, name, !ok || r.chance(0.05))) return {h};
    }
    for (auto& x : bs) if (!check(x, "all operations", true)) return {h};
    return {h};
}

// ---------------------------------------------------------------- encodings
static std::string gen_endpoint(Rng& r)
{
    size_t n = r.chance(0.15) ? 0 : r.chance(0.1) ? r.range(200, 900) : r.chance(0.02) ? r.range(32700, 33000) : r.range(1, 40);
    std::string s = r.bytes(n);
    for (auto& c : s) if (!c) c = 'a';
    if (r.chance(0.4)) s = "tcp://127.0.0.1:" + std::to_string(r.below(65536));
    return s;
}
static int32 gen_id(Rng& r) { return r.chance(0.5) ? (int32)r.below(20) : (int32)r.word(); }
static ptr<cluster_config> gen_conf(Rng& r)
{
    ptr<cluster_config> c = cs_new<cluster_config>(r.word(), r.word());
    size_t n = r.chance(0.2) ? 0 : r.chance(0.05) ? r.range(100, 400) : r.chance(0.05) ? r.range(1000, 2500) : r.below(9);
    for (size_t i = 0; i < n; ++i) c->get_servers().push_back(cs_new<srv_config>(gen_id(r), gen_endpoint(r)));
    return c;
}
static std::string eq_conf(cluster_config& a, cluster_config& b)
{
    if (a.get_log_idx() != b.get_log_idx()) return "log index";
    if (a.get_prev_log_idx() != b.get_prev_log_idx()) return "previous log index";
    if (a.get_servers().size() != b.get_servers().size()) return S("number of servers (%zu, %zu)", a.get_servers().size(), b.get_servers().size());
    auto i = a.get_servers().begin(), j = b.get_servers().begin();
    for (; i != a.get_servers().end(); ++i, ++j)
    {
        if ((*i)->get_id() != (*j)->get_id()) return S("server id (%d, %d)", (*i)->get_id(), (*j)->get_id());
        if ((*i)->get_endpoint() != (*j)->get_endpoint()) return S("endpoint (%zu, %zu bytes)", (*i)->get_endpoint().size(), (*j)->get_endpoint().size());
    }
    return "";
}
static std::string eq_snp(snapshot& a, snapshot& b)
{
    if (a.get_last_log_idx() != b.get_last_log_idx()) return "snapshot's last log index";
    if (a.get_last_log_term() != b.get_last_log_term()) return "snapshot's last log term";
    if (a.size() != b.size()) return "snapshot's size";
    return eq_conf(*a.get_last_config(), *b.get_last_config());
}
struct Kind
{
    const char* name;
    bool delimited; // knows where it ends
    // encodes a new random value; returns its bytes and a function which decodes a buffer, compares, and returns the re-encoded bytes
    std::function<std::string(Rng&, std::function<std::string(buffer&, std::string&)>&)> make;
    std::function<void(buffer&)> decode;
};
static std::string gen_payload(Rng& r)
{
    return r.bytes(r.chance(0.15) ? 0 : r.chance(0.1) ? r.range(32740, 32790) : r.chance(0.02) ? r.range(65500, 70000) : r.below(100));
}
static bufptr mkbuf(const std::string& s, size_t skip = 0)
{
    bufptr b = buffer::alloc(skip + s.size());
    if (!s.empty()) memcpy(b->data() + skip, s.data(), s.size());
    b->pos(skip);
    return b;
}
static std::string enc(bufptr b, const char* what)
{
    if (b->pos() != 0) violate("encode-position", S("an encoded %s is returned at position %zu", what, b->pos()));
    return content(*b);
}
static std::vector<Kind> kinds()
{
    std::vector<Kind> k;
    k.push_back({"server", true, [](Rng& r, std::function<std::string(buffer&, std::string&)>& back) {
        ptr<srv_config> v = cs_new<srv_config>(gen_id(r), gen_endpoint(r));
        back = [v](buffer& b, std::string& diff) {
            ptr<srv_config> w = srv_config::deserialize(b);
            if (w->get_id() != v->get_id()) diff = S("id (%d, %d)", v->get_id(), w->get_id());
            if (w->get_endpoint() != v->get_endpoint()) diff = S("endpoint (%zu, %zu bytes)", v->get_endpoint().size(), w->get_endpoint().size());
            return enc(w->serialize(), "server");
        };
        return enc(v->serialize(), "server");
    }, [](buffer& b) { srv_config::deserialize(b)->serialize(); }});
    k.push_back({"membership", true, [](Rng& r, std::function<std::string(buffer&, std::string&)>& back) {
        ptr<cluster_config> v = gen_conf(r);
        back = [v](buffer& b, std::string& diff) {
            ptr<cluster_config> w = cluster_config::deserialize(b);
            diff = eq_conf(*v, *w);
            return enc(w->serialize(), "membership");
        };
        return enc(v->serialize(), "membership");
    }, [](buffer& b) { cluster_config::deserialize(b)->serialize(); }});
    k.push_back({"snapshot", true, [](Rng& r, std::function<std::string(buffer&, std::string&)>& back) {
        ptr<snapshot> v = cs_new<snapshot>(r.word(), r.word(), gen_conf(r), r.word());
        back = [v](buffer& b, std::string& diff) {
            ptr<snapshot> w = snapshot::deserialize(b);
            diff = eq_snp(*v, *w);
            return enc(w->serialize(), "snapshot");
        };
        return enc(v->serialize(), "snapshot");
    }, [](buffer& b) { snapshot::deserialize(b)->serialize(); }});
    k.push_back({"snapshot-block", false, [](Rng& r, std::function<std::string(buffer&, std::string&)>& back) {
        ptr<snapshot> s = cs_new<snapshot>(r.word(), r.word(), gen_conf(r), r.word());
        std::string data = gen_payload(r);
        ulong off = r.word();
        bool done = r.chance(0.5);
        ptr<snapshot_sync_req> v = cs_new<snapshot_sync_req>(s, off, mkbuf(data, r.chance(0.3) ? r.below(20) : 0), done);
        back = [=](buffer& b, std::string& diff) {
            ptr<snapshot_sync_req> w = snapshot_sync_req::deserialize(b);
            diff = eq_snp(*s, w->get_snapshot());
            if (w->get_offset() != off) diff = "offset";
            if (w->is_done() != done) diff = "last-block flag";
            if (w->get_data().pos() != 0 || content(w->get_data()) != data) diff = S("data (%zu bytes, %zu bytes at position %zu)", data.size(), w->get_data().size(), w->get_data().pos());
            return enc(w->serialize(), "snapshot block");
        };
        std::string e = enc(v->serialize(), "snapshot block");
        if (e != enc(v->serialize(), "snapshot block")) violate("encode-twice", "encoding a snapshot block twice gives different bytes");
        return e;
    }, [](buffer& b) { snapshot_sync_req::deserialize(b)->serialize(); }});
    k.push_back({"log-entry", false, [](Rng& r, std::function<std::string(buffer&, std::string&)>& back) {
        static const log_val_type ts[] = {log_val_type::app_log, log_val_type::conf, log_val_type::cluster_server, log_val_type::log_pack, log_val_type::snp_sync_req};
        log_val_type t = ts[r.below(5)];
        std::string data = gen_payload(r);
        ulong term = r.word();
        ptr<log_entry> v = cs_new<log_entry>(term, mkbuf(data), t);
        if (r.chance(0.3)) v->get_buf().pos(r.below(data.size() + 1)); // somebody has read it
        back = [=](buffer& b, std::string& diff) {
            size_t p = b.pos();
            if (p == 0 && log_entry::term_in_buffer(b) != term) diff = "term peeked at";
            b.pos(p);
            ptr<log_entry> w = log_entry::deserialize(b);
            if (w->get_term() != term) diff = "term";
            if (w->get_val_type() != t) diff = "kind";
            if (w->get_buf().pos() != 0 || content(w->get_buf()) != data) diff = S("data (%zu bytes, %zu bytes at position %zu)", data.size(), w->get_buf().size(), w->get_buf().pos());
            return enc(w->serialize(), "log entry");
        };
        std::string e = enc(v->serialize(), "log entry");
        if (e != enc(v->serialize(), "log entry")) violate("encode-twice", "encoding a log entry twice gives different bytes");
        return e;
    }, [](buffer& b) { log_entry::deserialize(b)->serialize(); }});
    return k;
}
static Out run_roundtrip(uint64_t seed)
{
    static std::vector<Kind> ks = kinds();
    Rng r(seed);
    Kind& k = ks[seed % ks.size()];
    std::function<std::string(buffer&, std::string&)> back;
    std::string e;
    uint64_t h = 3;
    try
    {
        e = k.make(r, back);
        h = fnvs(e);
        for (int round = 0; round < 3; ++round)
        {
            std::string pre = round ? r.bytes(r.chance(0.1) ? r.range(32700, 32800) : r.below(50)) : "", post = k.delimited && round ? r.bytes(r.below(50)) : "";
            bufptr b = mkbuf(pre + e + post);
            b->pos(pre.size());
            std::string diff;
            std::string again = back(*b, diff);
            if (!diff.empty()) { violate("roundtrip", S("%s: %s differs after encoding and decoding (%zu bytes at %zu of %zu)", k.name, diff.c_str(), e.size(), pre.size(), b->size())); return {h}; }
            if (again != e) { violate("reencode", S("%s: encoding the decoded value again gives different bytes (%zu, %zu)", k.name, e.size(), again.size())); return {h}; }
            if (k.delimited && b->pos() != pre.size() + e.size()) { violate("decode-position", S("%s: %zu bytes encoded, decoding consumed %zd", k.name, e.size(), (ssize_t)b->pos() - (ssize_t)pre.size())); return {h}; }
            if (content(*b) != pre + e + post) { violate("decode-changes-input", S("%s: decoding changed the input", k.name)); return {h}; }
            stat(std::string("roundtrips_") + k.name);
        }
    }
    catch (const std::exception& x) { violate("roundtrip", S("%s: decoding an encoded value (%zu bytes) failed: %s", k.name, e.size(), x.what())); }
    return {h};
}
static std::string corrupt(Rng& r, std::string e)
{
    int how = (int)r.below(6);
    if (how == 0 || how == 1) e.resize(r.below(e.size() + 1));
    if (how == 1 || how == 2 || how == 3)
    {
        int n = (int)r.range(1, 4);
        while (n-- && !e.empty()) { size_t i = r.chance(0.5) ? r.below(std::min<size_t>(e.size(), 40)) : r.below(e.size()); e[i] = r.chance(0.5) ? (char)0xff : r.chance(0.5) ? 0 : (char)r.e(); }
    }
    if (how == 4) e = r.bytes(r.below(64));
    if (how == 5)
    {
        if (e.size() > 4) { size_t i = r.below(e.size() - 4); int32 v = (int32)r.word(); memcpy(&e[i], &v, 4); }
        e += r.bytes(r.below(20));
    }
    return e;
}
static Out run_garbage(uint64_t seed)
{
    static std::vector<Kind> ks = kinds();
    Rng r(seed);
    uint64_t h = 5;
    bool nt = false;
    for (int i = 0; i < 8; ++i)
    {
        Kind& k = ks[r.below(ks.size())];
        std::function<std::string(buffer&, std::string&)> back;
        std::string e = corrupt(r, k.make(r, back));
        bufptr b = mkbuf(e);
        TR("%s: %zu bytes", k.name, e.size());
        h = fnvs(e, h);
        double t0 = now();
        bool ok = true;
        try { k.decode(*b); }
        catch (const std::bad_alloc&) { violate("garbage-memory", S("decoding %zu bytes of garbage as %s asks for too much memory", e.size(), k.name)); }
        catch (const std::exception&) { ok = false; nt = true; }
        if (now() - t0 > 20) violate("garbage-time", S("decoding %zu bytes of garbage as %s took %.0f s", e.size(), k.name, now() - t0));
        if (b->pos() > b->size() || content(*b) != e) { violate("decode-changes-input", S("%s: decoding garbage changed the input or moved beyond its end", k.name)); return {h}; }
        stat(ok ? "garbage_decoded" : "garbage_rejected");
    }
    return {h, nt};
}

// ---------------------------------------------------------------- packs
struct Ent { ulong term; int type; std::string data; bool operator==(const Ent& o) const { return term == o.term && type == o.type && data == o.data; } };
static ptr<log_entry> mkent(const Ent& e) { return cs_new<log_entry>(e.term, mkbuf(e.data), (log_val_type)e.type); }
static Ent rdent(log_entry& e) { return Ent{e.get_term(), (int)e.get_val_type(), content(e.get_buf())}; }
static std::string scratch(const char* n)
{
    std::string d = g_dir + "/" + n;
    mkdir(d.c_str(), 0755);
    for (const char* f : {"store.idx", "store.dat", "store.sti", "store.idx.bak", "store.dat.bak", "store.sti.bak"}) unlink((d + "/" + f).c_str());
    return d;
}
static Out run_pack(uint64_t seed)
{
    Rng r(seed);
    uint64_t h = 11;
    std::vector<Ent> a, b;
    auto gen = [&] { return Ent{r.word(), (int)r.range(1, 5), gen_payload(r)}; };
    size_t na = r.range(1, 12), nb = r.below(8);
    for (size_t i = 0; i < na; ++i) a.push_back(gen());
    for (size_t i = 0; i < nb; ++i) b.push_back(gen());
    fs_log_store A(scratch("a"), (int32)r.below(10)), B(scratch("b"), (int32)r.below(10));
    for (auto& e : a) { auto p = mkent(e); A.append(p); }
    for (auto& e : b) { auto p = mkent(e); B.append(p); }
    size_t from = r.below(na);
    int32 cnt = (int32)r.range(1, na + 2);
    std::vector<Ent> part(a.begin() + from, a.begin() + std::min<size_t>(na, from + cnt));
    auto same = [&](const char* when) {
        if (B.next_slot() != b.size() + 1 || B.start_index() != 1) { violate("pack-contents", S("%s: the store spans [%llu, %llu), expected [1, %zu)", when, (unsigned long long)B.start_index(), (unsigned long long)B.next_slot(), b.size() + 1)); return false; }
        for (size_t i = 0; i < b.size(); ++i)
        {
            ptr<log_entry> e = B.entry_at(i + 1);
            if (!e || !(rdent(*e) == b[i])) { violate("pack-contents", S("%s: entry %zu of %zu differs", when, i + 1, b.size())); return false; }
        }
        return true;
    };
    try
    {
        bufptr p = A.pack(from + 1, cnt);
        std::string bytes = content(*p);
        h = fnvs(bytes, h);
        if (bytes != content(*A.pack(from + 1, cnt))) { violate("encode-twice", "packing the same entries twice gives different bytes"); return {h}; }
        // garbage first
        for (int i = 0; i < 4; ++i)
        {
            std::string g = corrupt(r, bytes);
            if (r.chance(0.5) && g.size() >= 8) { int32 v = r.chance(0.5) ? (int32)r.word() : (int32)(r.below(g.size() + 20)); memcpy(&g[4 * r.below(2)], &v, 4); }
            if (g == bytes) continue;
            bufptr q = mkbuf(g);
            ulong at = r.range(1, b.size() + 1);
            TR("garbage pack of %zu bytes at %llu", g.size(), (unsigned long long)at);
            bool ok = true;
            try { B.apply_pack(at, *q); } catch (const std::exception& e) { ok = false; TR("  refused: %s", e.what()); }
            stat(ok ? "garbage_packs_applied" : "garbage_packs_refused");
            if (!ok) { if (!same("after a pack that was refused")) return {h}; }
            else
            {
                // the damaged pack was well-formed: whatever it holds, reading it is safe; start again from known contents
                if (B.next_slot() < at || B.next_slot() > at + g.size()) { violate("pack-contents", S("after a damaged pack at %llu the next index is %llu", (unsigned long long)at, (unsigned long long)B.next_slot())); return {h}; }
                std::vector<Ent> nb2;
                bool readable = true;
                for (ulong j = 1; j < B.next_slot() && readable; ++j)
                    try { ptr<log_entry> e = B.entry_at(j); if (!e) readable = false; else nb2.push_back(rdent(*e)); } catch (const std::exception&) { readable = false; }
                for (size_t j = 0; j + 1 < at && readable; ++j) if (!(nb2[j] == b[j])) { violate("pack-contents", S("entry %zu before the place of a damaged pack (%llu) changed", j + 1, (unsigned long long)at)); return {h}; }
                if (!readable) { stat("garbage_packs_unreadable"); return {h}; }
                b = nb2;
            }
        }
        ulong at = r.range(1, b.size() + 1);
        size_t pre = r.chance(0.3) ? r.below(20) : 0;
        bufptr q = mkbuf(std::string(pre, 'x') + bytes);
        q->pos(pre);
        B.apply_pack(at, *q);
        b.resize(at - 1);
        b.insert(b.end(), part.begin(), part.end());
        if (!same("after applying a pack")) return {h};
        if (content(*B.pack(at, (int32)part.size())).size() != bytes.size()) { violate("reencode", "packing the applied entries again gives a different size"); return {h}; }
        stat("packs_applied");
    }
    catch (const std::exception& e) { violate("pack-failed", S("packing %zu entries or applying the pack failed: %s", part.size(), e.what())); }
    return {h};
}
int main(int argc, char** argv)
{
    return drive(argc, argv, {{"buffer", run_buffer}, {"roundtrip", run_roundtrip}, {"garbage", run_garbage}, {"pack", run_pack}});
}
