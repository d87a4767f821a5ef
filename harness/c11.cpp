// C11: compressed streams round-trip or fail loudly.
#include "common.h"
#include <VirtualRobot/Compression/CompressionBZip2.h>
#include <VirtualRobot/Compression/CompressionRLE.h>
#include <malloc.h>
#include <cstring>
using namespace VirtualRobot;
typedef std::vector<unsigned char> Bytes;

static uint64_t h(const Bytes& b) { uint64_t r = 1469598103934665603ull; for (unsigned char c : b) r = (r ^ c) * 1099511628211ull; return r; }
// ---- data ------------------------------------------------------------------------------------
static Bytes makeData(size_t n)
{
    Bytes d; d.reserve(n);
    int kind = sim::rnd(8);
    uint64_t x = sim::rnd() | 1;
    auto nx = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; };
    switch (kind)
    {
        case 0: d.assign(n, nx() & 255); break;
        case 1: while (d.size() < n) d.push_back(nx() >> 11); break;
        case 2: while (d.size() < n) { size_t l = 1 + nx() % 600; unsigned char c = nx() % 4 ? 0 : nx() >> 20; while (l-- && d.size() < n) d.push_back(c); } break;
        case 3: while (d.size() < n) d.push_back("the quick brown fox "[nx() % 20]); break;
        case 4: { int p = 1 + nx() % 40; Bytes q; for (int i = 0; i < p; i++) q.push_back(nx() >> 9); while (d.size() < n) d.push_back(q[d.size() % p]); break; }
        case 5: while (d.size() < n) d.push_back(nx() % 10 ? 0 : nx() % 3); break;   // a sparse map
        case 6: while (d.size() < n) { size_t l = 253 + nx() % 6; unsigned char c = nx() >> 20; while (l-- && d.size() < n) d.push_back(c); } break; // run lengths around 255
        default: while (d.size() < n) { size_t l = nx() % 7; unsigned char c = 'a' + nx() % 3; while (l-- && d.size() < n) d.push_back(c); } break; // short runs
    }
    d.resize(n);
    return d;
}
// ---- streams ---------------------------------------------------------------------------------
// output: small buffers, failing after a number of bytes in one of several ways
struct OutBuf : std::streambuf
{
    Bytes out; long failAt = -1; int how = 0; bool failed = false; std::vector<char> buf; bool failSync = false;
    explicit OutBuf(size_t b) : buf(b) { if (b) setp(buf.data(), buf.data() + b); }
    bool put(const char* s, std::streamsize n, std::streamsize& done)
    {
        done = n;
        if (failAt >= 0 && (long)(out.size() + n) > failAt) { done = std::max<long>(0, failAt - (long)out.size()); failed = true; sim::fault::note(how == 1 ? "stream-throws" : "stream-write-fails"); }
        out.insert(out.end(), s, s + done);
        if (done < n && how == 1) throw std::runtime_error("device");
        return done == n;
    }
    bool drain() { std::streamsize n = pptr() - pbase(), d = 0; if (!n) return true; bool ok = put(pbase(), n, d); setp(buf.data(), buf.data() + buf.size()); return ok; }
    int_type overflow(int_type c) override
    {
        if (!drain()) return traits_type::eof();
        if (c != traits_type::eof()) { char k = c; std::streamsize d; if (buf.empty()) { if (!put(&k, 1, d)) return traits_type::eof(); } else { *pptr() = k; pbump(1); } }
        return traits_type::not_eof(c);
    }
    int sync() override { if (failSync) { failed = true; sim::fault::note("stream-sync-fails"); return -1; } return drain() ? 0 : -1; }
};
// input: delivers at most `chunk` bytes at a time, without room for putting back, and seekable only if asked for
struct InBuf : std::streambuf
{
    const Bytes& in; size_t pos = 0, chunk; long failAt; int how; bool failed = false; std::vector<char> buf; 
    InBuf(const Bytes& d, size_t c, long f, int hw) : in(d), chunk(c), failAt(f), how(hw), buf(c) {}
    int_type underflow() override
    {
        if (failAt >= 0 && (long)pos >= failAt) { failed = true; sim::fault::note("stream-read-fails"); throw std::runtime_error("device"); }
        size_t n = std::min(chunk, in.size() - pos);
        if (chunk > 1 && n > 1) n = 1 + sim::rnd(n);
        if (failAt >= 0) n = std::min<size_t>(n, failAt - pos);
        if (!n) return traits_type::eof();
        memcpy(buf.data(), &in[pos], n); pos += n;
        setg(buf.data(), buf.data(), buf.data() + n);
        return traits_type::to_int_type(*gptr());
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        off_type cur = pos - (egptr() - gptr()), t = d == std::ios_base::cur ? cur + o : d == std::ios_base::beg ? o : (off_type)in.size() + o;
        if (t < 0 || t > (off_type)in.size()) return pos_type(off_type(-1));
        if (t != cur) { pos = t; setg(buf.data(), buf.data(), buf.data()); }
        return pos_type(t);
    }
};

struct Guarded   // a buffer with guard bytes at both sides
{
    Bytes m; size_t n; unsigned char g;
    Guarded(size_t n_) : m(n_ + 64), n(n_), g(sim::rnd(256)) { std::fill(m.begin(), m.end(), g); }
    unsigned char* p() { return m.data() + 32; }
    void check(size_t written) { for (size_t i = 0; i < m.size(); i++) if ((i < 32 || i >= 32 + written) && (i < 32 || i >= 32 + n) && m[i] != g) sim::violation("buffer-overrun", "a call wrote outside the buffer of %zu bytes (offset %ld)", n, (long)i - 32); }
};

// compresses d to os in random chunks; false if a call reported failure
static bool compress(const Bytes& d, std::ostream& os, int chunkKind, bool abandon)
{
    CompressionBZip2* b;
    try { b = new CompressionBZip2(&os); } catch (VirtualRobotException&) { return false; }
    std::unique_ptr<CompressionBZip2> z(b);
    size_t o = 0; bool ok = true;
    while (o < d.size() && ok)
    {
        size_t n = chunkKind == 0 ? d.size() : chunkKind == 1 ? 1 + sim::rnd(8) : chunkKind == 2 ? 1 + sim::rnd(5000) : 1 + sim::rnd(d.size());
        n = std::min(n, d.size() - o);
        Guarded g(n); memcpy(g.p(), &d[o], n);
        ok = z->write(g.p(), n);
        if (memcmp(g.p(), &d[o], n)) sim::violation("input-changed", "write() changed the caller's data");
        o += n;
    }
    if (abandon) return false;
    if (!ok)
    {
        // once failed nothing may succeed as if nothing happened
        unsigned char c = 1;
        if (z->write(&c, 1)) sim::violation("write-after-failure", "write() succeeded after an earlier write() had failed");
        return false;
    }
    if (!z->close()) return false;
    unsigned char c = 1;
    if (z->write(&c, 1)) sim::violation("write-after-close", "write() succeeded after close()");
    return true;
}
enum { END, FAIL };
// reads everything; END: the end was reached (a read returned less than asked for)
static int uncompress(std::istream& is, int chunkKind, Bytes& out, size_t limit, bool faulty = false)
{
    CompressionBZip2* b;
    try { b = new CompressionBZip2(&is); } catch (VirtualRobotException&) { return FAIL; }
    std::unique_ptr<CompressionBZip2> z(b);
    for (;;)
    {
        size_t n = chunkKind == 0 ? limit + 1 : chunkKind == 1 ? 1 + sim::rnd(8) : chunkKind == 2 ? 1 + sim::rnd(5000) : chunkKind == 4 ? 5000 : 1 + sim::rnd(limit + 1);
        Guarded g(n); int got = -12345;
        bool ok = z->read(g.p(), n, got);
        g.check(n);
        if (!ok)
        {
            int g2; unsigned char c;
            if (z->read(&c, 1, g2) && g2 > 0) sim::violation("read-after-failure", "read() returned data after an earlier read() had failed");
            return FAIL;
        }
        if (got < 0 || got > (int)n) sim::violation("bad-length", "read() of %zu bytes reports %d bytes", n, got);
        out.insert(out.end(), g.p(), g.p() + got);
        if (out.size() > limit + 4000000 && faulty) return FAIL;   // damaged data may expand (45 MB per block) before its checksum is reached
        if (out.size() > limit + 4000000) sim::violation("endless", "reading goes on after %zu bytes, the original has %zu", out.size(), limit);
        if (got < (int)n)
        {
            if (sim::chance(0.3)) { int g2 = -1; unsigned char c; if (z->read(&c, 1, g2) && g2 != 0) sim::violation("data-after-end", "read() returned %d bytes after the end of the data", g2); }
            if (!z->close()) return FAIL;
            return END;
        }
    }
}
static size_t live() { return mallinfo2().uordblks + mallinfo2().hblkhd; }

static void roundTrip()
{
    size_t n = sim::chance(0.1) ? sim::rnd(4) : sim::chance(0.5) ? sim::rnd(3000) : sim::chance(0.93) ? sim::rnd(40000) : 60000 + sim::rnd(60000);
    bool multi = sim::chance(0.012);
    if (multi) n = 890000 + sim::rnd(60000);
    Bytes d;
    if (multi && sim::chance(0.8))
    {
        // a first block that is full, with runs where it ends, and a short second one
        int alpha = sim::chance(0.5) ? 256 : 2 + sim::rnd(20); uint64_t x = sim::rnd() | 1; unsigned char last = 0;
        auto nx = [&] { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x >> 9; };
        auto single = [&] { unsigned char c = nx() % alpha; while (c == last) c = nx() % alpha; d.push_back(last = c); };
        size_t full = 900000 - 19 - sim::rnd(40); d.reserve(full + 20000);
        while (d.size() < full) single();
        for (int k = 5 + sim::rnd(20); k--;) { size_t l = sim::chance(0.5) ? 4 + sim::rnd(20) : 250 + sim::rnd(12); unsigned char c = nx() % alpha; while (c == last) c = nx() % alpha; last = c; d.insert(d.end(), l, c); }
        for (int k = sim::rnd(2000); k--;) single();
        n = d.size();
    }
    else d = makeData(n);
    int wf = sim::rnd(10);        // kind of the writing side's fault
    int ck = sim::rnd(4); if (n > 20000 && ck == 1) ck = 2; if (multi) { wf = 9; ck = 0; sim::probe("several-blocks"); }
    OutBuf ob(sim::chance(0.3) ? 0 : sim::chance(0.5) ? 1 + sim::rnd(40) : 1 + sim::rnd(9000));
    bool abandon = false;
    if (wf == 0 || wf == 1) { ob.failAt = sim::chance(0.3) ? sim::rnd(60) : sim::rnd(n + 60); ob.how = sim::rnd(2); }
    else if (wf == 2) ob.failSync = true;
    else if (wf == 3) abandon = true;
    std::string extra; // other data around the compressed one, as in a file
    if (sim::chance(0.5)) { size_t e = sim::chance(0.5) ? sim::rnd(40) : sim::rnd(12000); for (size_t i = 0; i < e; i++) extra += char(sim::rnd(256)); }
    size_t pre = sim::chance(0.5) ? sim::rnd(30) : 0;
    sim::sample("stream %zu bytes, write chunks %d, write fault %d at %ld, %zu bytes before, %zu after", n, ck, wf, ob.failAt, pre, extra.size());
    bool wrote; bool st;
    size_t before = live();
    {
        std::ostream os(&ob);
        for (size_t i = 0; i < pre; i++) os.put('x');
        if (wf == 4 && sim::chance(0.5)) { os.setstate(std::ios::failbit); sim::fault::note("stream-already-failed"); }
        sim::setStepLimit(3000000ull + 4000ull * n + 40ull * n * 20, "writing through the compressor");
        wrote = compress(d, os, ck, abandon);
        if (wrote && sim::chance(0.15))
        {
            // the reader's blocks of 5000 bytes end right at, before or behind the end of the stream
            os.flush(); size_t c = ob.out.size() - std::min(pre, ob.out.size()), want = (size_t)(10000 - 2 + sim::rnd(5)) % 5000;
            extra.resize((want + 5000 - c % 5000) % 5000, 'y');
        }
        if (wrote) { os.write(extra.data(), extra.size()); os.flush(); }
        st = os.good();
    }
    size_t after = live(), mine = ob.out.capacity();
    if (after > before + 2 * mine + 60000) sim::violation("leak", "%zu bytes are still allocated after compressing (the stream holds %zu)", after - before, mine);
    sim::clearStepLimit();
    if (abandon) { sim::nontrivial(); return; }
    bool broken = ob.failed || (wf == 4 && !st);
    if (wrote && !extra.size() && broken) sim::violation("failure-unreported", "the stream failed after %zu bytes but all calls succeeded", ob.out.size());
    if (!wrote)
    {
        if (!broken) sim::violation("spurious-failure", "compressing %zu bytes to a working stream failed", n);
        sim::nontrivial(); return;
    }
    if (!st) { sim::nontrivial(); return; } // failed while writing what follows
    // ---- reading
    Bytes file = ob.out;
    size_t comp = file.size() - pre - extra.size();
    sim::event(h(file));
    int rf = sim::rnd(8);
    long failAt = -1; bool altered = false, cut = false;
    if (rf == 0) failAt = pre + sim::rnd(comp + extra.size() + 1);
    else if (rf == 1) { size_t k = sim::rnd(comp); file.resize(pre + k); cut = true; sim::fault::note("stream-ends-early"); }
    else if (rf == 2 || rf == 3)
    {
        int m = sim::chance(0.6) ? 1 : 1 + sim::rnd(6);
        for (int i = 0; i < m && comp; i++)
        {
            size_t k = sim::chance(0.4) ? sim::rnd(std::min<size_t>(comp, 60)) : sim::chance(0.3) ? comp - 1 - sim::rnd(std::min<size_t>(comp, 14)) : sim::rnd(comp);
            unsigned char o = file[pre + k];
            file[pre + k] = sim::chance(0.6) ? o ^ (1 << sim::rnd(8)) : sim::rnd(256);
            if (file[pre + k] != o) altered = true;
        }
        if (altered) sim::fault::note("bytes-altered");
        if (sim::chance(0.15)) // a block moved or lost
        { size_t k = sim::rnd(comp), l = 1 + sim::rnd(comp - k); file.erase(file.begin() + pre + k, file.begin() + pre + k + l); altered = true; sim::fault::note("bytes-lost"); }
        else if (sim::chance(0.1)) // garbage instead of the data
        { for (size_t k = sim::rnd(4) ? 4 : 0; k < comp; k++) file[pre + k] = sim::rnd(256); altered = true; sim::fault::note("garbage"); }
        else if (sim::chance(0.15)) // the number of selectors claimed by a block is altered
        {
            // bit position of nSelectors depends on the map of used bytes: flip bits around there
            for (int i = 0; i < 12; i++) { size_t k = std::min(comp - 1, (size_t)(18 + sim::rnd(40))); file[pre + k] |= sim::rnd(256); } altered = true; sim::fault::note("tables-altered");
        }
    }
    int rk = sim::rnd(5); if (n > 20000 && rk == 1) rk = 2;
    size_t chunk = sim::chance(0.3) ? 1 : sim::chance(0.5) ? 1 + sim::rnd(50) : 1 + sim::rnd(9000);
    InBuf ib(file, chunk, failAt, 0);
    sim::sample("stream %zu bytes, write chunks %d, write fault %d at %ld, %zu bytes before, %zu after; compressed %zu, read chunks %d of buffer %zu, read fault %d at %ld", n, ck, wf, ob.failAt, pre, extra.size(), comp, rk, chunk, rf, failAt);
    std::istream is(&ib);
    for (size_t i = 0; i < pre; i++) is.get();
    if (is.fail()) return;
    Bytes out; out.reserve(d.size() + 5100);
    sim::setStepLimit(60000000ull + 4000ull * n, "reading through the compressor");
    before = live();
    int r = uncompress(is, rk, out, d.size(), altered);
    after = live();
    if (after > before + out.capacity() + 60000 + (out.capacity() > d.size() + 5100 ? 2 * out.capacity() : 0)) sim::violation("leak", "%zu bytes are still allocated after reading", after - before);
    sim::clearStepLimit();
    bool faulty = ib.failed || altered || cut;
    if (r == END)
    {
        if (out != d) sim::violation("wrong-data", "reading succeeded with %zu bytes which differ from the %zu written (fault kind %d)", out.size(), d.size(), rf);
        if (cut) { /* only padding may be missing: a cut stream is never complete */ sim::violation("truncated-accepted", "a stream cut after %zu of %zu bytes was read as complete", file.size() - pre, comp); }
        if (ib.failed && !extra.size()) sim::violation("read-error-accepted", "reading succeeded although the stream failed at byte %ld of %zu", failAt, comp);
        if (!faulty)
        {
            // what follows in the stream is still there
            Bytes rest;
            for (int c; (c = is.get()) != EOF;) rest.push_back(c);
            if (!ib.failed && (rest.size() != extra.size() || memcmp(rest.data(), extra.data(), rest.size())))
                sim::violation("position", "after closing, %zu bytes follow in the stream, not the %zu written after the compressed data", rest.size(), extra.size());
        }
    }
    else if (!faulty) sim::violation("spurious-failure", "reading back %zu bytes (compressed %zu, buffer %zu) failed after %zu bytes", d.size(), comp, chunk, out.size());
    sim::nontrivial();
    sim::event(r);
    sim::probe(r == END ? "read-to-end" : "read-failed");
}
static void files()
{
    // the same through real file streams with faulty storage
    size_t n = sim::chance(0.5) ? sim::rnd(3000) : sim::rnd(40000);
    Bytes d = makeData(n);
    std::string fn = sim::io::scratch() + "f";
    auto& pl = sim::io::plan();
    int wf = sim::rnd(6);
    if (wf == 0) pl.capacity = sim::rnd(n + 40);
    else if (wf == 1) { pl.eioWriteAt = sim::rnd(n + 40); pl.eioOnce = sim::chance(0.5); }
    if (sim::chance(0.5)) { pl.shortWriteP = sim::runit() * 0.8; pl.eintrP = sim::chance(0.5) ? 0 : 0.2; }
    bool wrote;
    sim::setStepLimit(3000000ull + 5000ull * n, "writing to a file through the compressor");
    {
        std::ofstream os(fn, std::ios::out | std::ios::binary);
        if (!os) sim::discard("open");
        wrote = compress(d, os, sim::rnd(2) ? 2 : 3, false);
        os.close();
    }
    sim::clearStepLimit();
    bool broken = sim::io::stats().writeFaults > 0;
    sim::sample("file %zu bytes, write fault %d", n, wf);
    if (broken && wrote) sim::violation("failure-unreported", "writing to the file failed (%ld bytes arrived) but all calls succeeded", sim::io::stats().written);
    if (!broken && !wrote) sim::violation("spurious-failure", "compressing %zu bytes to a working file failed", n);
    sim::nontrivial();
    if (!wrote) return;
    pl = sim::io::Plan(); long len = sim::io::stats().written; sim::io::resetStats();
    int rf = sim::rnd(4);
    if (rf == 0) pl.eioReadAt = sim::rnd(len + 1);
    pl.shortReadP = sim::chance(0.5) ? sim::runit() * 0.8 : 0; pl.eintrP = sim::chance(0.3) ? 0.2 : 0;
    Bytes out;
    int r;
    sim::setStepLimit(60000000ull + 4000ull * n, "reading a file through the compressor");
    { std::ifstream is(fn, std::ios::in | std::ios::binary); if (!is) sim::violation("spurious-failure", "cannot open the file just written"); r = uncompress(is, sim::chance(0.5) ? 2 : 3, out, d.size()); }
    sim::clearStepLimit();
    if (r == END && out != d) sim::violation("wrong-data", "reading the file succeeded with %zu bytes which differ from the %zu written", out.size(), d.size());
    if (r == FAIL && !sim::io::stats().readFaults) sim::violation("spurious-failure", "reading back %zu bytes from a working file failed", d.size());
}
static void rle()
{
    size_t n = sim::chance(0.2) ? sim::rnd(6) : sim::chance(0.7) ? sim::rnd(1500) : sim::rnd(70000);
    Bytes d = makeData(n);
    size_t cap = n + n / 250 + 2;
    Guarded c(cap); Guarded u(n);
    sim::sample("rle %zu bytes", n);
    sim::setStepLimit(2000000ull + 200ull * n, "run-length coding");
    int k = CompressionRLE::RLE_Compress(d.data(), c.p(), n);
    c.check(cap);
    if (k < 0 || k > (int)cap) sim::violation("rle-size", "RLE_Compress of %zu bytes reports %d bytes", n, k);
    if (n && k)
    {
        CompressionRLE::RLE_Uncompress(c.p(), u.p(), k);
        u.check(n);
        if (memcmp(u.p(), d.data(), n)) sim::violation("rle-round-trip", "RLE: %zu bytes differ after compressing and uncompressing", n);
    }
    else if (n) sim::violation("rle-size", "RLE_Compress of %zu bytes produced nothing", n);
    sim::clearStepLimit();
    sim::nontrivial();
}
// two streams in two threads: the coders share nothing
static void parallel()
{
    static Bytes d[3], out[3]; static int res[3];
    int n = 2 + sim::rnd(2);
    for (int i = 0; i < n; i++) d[i] = makeData(sim::rnd(1200));
    sim::sample("%d threads, streams of %zu %zu bytes", n, d[0].size(), d[1].size());
    sim::setStepLimit(40000000, "concurrent compression");
    for (int i = 0; i < n; i++) sim::spawn([i]
    {
        std::stringstream s;
        bool ok = compress(d[i], s, 2, false);
        if (!ok) { res[i] = -1; return; }
        res[i] = uncompress(s, 2, out[i], d[i].size());
        Bytes c(d[i].size() * 2 + 10), u(d[i].size());
        int k = CompressionRLE::RLE_Compress(d[i].data(), c.data(), d[i].size());
        CompressionRLE::RLE_Uncompress(c.data(), u.data(), k);
        if (u != d[i]) sim::violation("rle-round-trip", "RLE in a concurrent thread: %zu bytes differ", d[i].size());
    });
    sim::joinAll();
    sim::clearStepLimit();
    for (int i = 0; i < n; i++) if (res[i] != END || out[i] != d[i]) sim::violation("wrong-data", "a stream of %zu bytes used by its own thread came back as %zu bytes (result %d) while other threads used theirs", d[i].size(), out[i].size(), res[i]);
    sim::nontrivial();
}
static void run()
{
    double k = sim::runit();
    if (k < 0.62) roundTrip();
    else if (k < 0.78) files();
    else if (k < 0.9) rle();
    else parallel();
}
namespace sim { Harness harness = {"C11", nullptr, run}; }
