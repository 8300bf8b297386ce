// C15: reading a stream returns every message, intact and in order
#include "fuzz.h"
#include "refcrex.h"
#include <wreport/error.h>
#include <cerrno>
#include <cstdio>
#include <unistd.h>

using namespace wreport;
using namespace pbt;

namespace {

// Stream over a string, delivered in pieces, at a base offset, that can fail at a given point
struct Source
{
    const std::string* data;
    off64_t base, pos = 0;
    size_t chunk, fail_at;
};
ssize_t src_read(void* cookie, char* buf, size_t size)
{
    Source& s = *(Source*)cookie;
    size_t end = std::min(s.data->size(), s.fail_at);
    if ((size_t)s.pos >= end)
    {
        if (s.fail_at <= s.data->size()) { errno = EIO; return -1; }
        return 0;
    }
    size = std::min({size, s.chunk, end - (size_t)s.pos});
    memcpy(buf, s.data->data() + s.pos, size);
    s.pos += size;
    return size;
}
int src_seek(void* cookie, off64_t* off, int whence)
{
    Source& s = *(Source*)cookie;
    off64_t p = *off;
    switch (whence)
    {
        case SEEK_SET: p -= s.base; break;
        case SEEK_CUR: p += s.pos; break;
        default: p += s.data->size(); break;
    }
    if (p < 0) { errno = EINVAL; return -1; }
    s.pos = p;
    *off = p + s.base;
    return 0;
}
struct Sink
{
    std::string data;
    size_t fail_at;
};
ssize_t sink_write(void* cookie, const char* buf, size_t size)
{
    Sink& s = *(Sink*)cookie;
    if (s.data.size() + size > s.fail_at) { errno = ENOSPC; return 0; }
    s.data.append(buf, size);
    return size;
}

struct Found { size_t offset; std::string data; };

// Messages in the stream; returns what comes after the last one:
enum End { CLEAN, CUT, BAD_LENGTH };
End scan_bufr(const std::string& s, size_t pos, std::vector<Found>& out)
{
    while ((pos = s.find("BUFR", pos)) != std::string::npos)
    {
        if (pos + 8 > s.size()) return CUT;
        size_t len = (size_t)(unsigned char)s[pos + 4] << 16 | (size_t)(unsigned char)s[pos + 5] << 8 | (unsigned char)s[pos + 6];
        if (len < 12) return BAD_LENGTH;
        if (pos + len > s.size()) return CUT;
        out.push_back({pos, s.substr(pos, len)});
        pos += len;
    }
    return CLEAN;
}
// Position after the first end of CREX text found from pos
size_t crex_end(const std::string& s, size_t pos)
{
    for (; pos + 2 < s.size(); ++pos)
    {
        if (s.compare(pos, 2, "++")) continue;
        size_t e = s.find_first_not_of("\r\n", pos + 2);
        if (e == std::string::npos || e == pos + 2) continue;
        if (!s.compare(e, 4, "7777")) return e + 4;
    }
    return std::string::npos;
}
End scan_crex(const std::string& s, size_t pos, std::vector<Found>& out)
{
    while ((pos = s.find("CREX++", pos)) != std::string::npos)
    {
        size_t end = crex_end(s, pos + 6);
        // An end that overlaps with the start is neither
        if (crex_end(s, pos + 4) != end) throw Discard("message end in the signature");
        if (end == std::string::npos) return CUT;
        out.push_back({pos, s.substr(pos, end - pos)});
        pos = end;
    }
    return CLEAN;
}

std::string len3(size_t n) { std::string r; r += (char)(n >> 16); r += (char)(n >> 8); r += (char)n; return r; }

std::string junk(Gen& g, bool crex)
{
    std::string r;
    unsigned n = g.size(12);
    static const char* const bits[] = {"B", "BU", "BUF", "BUFF", "R", "C", "CR", "CRE", "CREX", "CREX+", "+", "++", "\r\n", "7777", "7", "777", "\r\r\n", "BUFR?", "CREX++?", "bufr", "GRIB", "\x01\r\r\n123\r\r\nIUSN01 EGRR\r\r\n", "\x03"};
    for (unsigned i = 0; i < n; ++i)
        switch (g.draw(4))
        {
            case 0: r += g.pick(bits); break;
            case 1: r += g.bytes(g.size(20)); break;
            case 2: r += g.ascii(g.size(20)); break;
            case 3: r += std::string(g.size(600), crex ? '+' : 'B'); break;
        }
    // No message start by itself
    for (size_t p; (p = r.find("BUFR")) != std::string::npos; ) r[p + 3] = '_';
    for (size_t p; (p = r.find("CREX++")) != std::string::npos; ) r[p + 5] = '_';
    return r;
}

std::string bufr_message(Gen& g, bool* valid)
{
    *valid = false;
    switch (g.draw(6))
    {
        case 0: case 1:
        {
            // Any contents
            size_t n = g.chance(1, 30) ? g.range(4096, 70000) : g.size(300);
            // Up to what fits in the length
            if (g.chance(1, 1500)) { n = (size_t)1 << g.range(16, 23); n += g.draw(n - 20); }
            std::string b;
            if (n > 600) { b.resize(n); uint64_t s = g.draw(0); for (auto& c: b) { s = s * 6364136223846793005ull + 1442695040888963407ull; c = s >> 33; } }
            else b = g.bytes(n);
            if (g.chance(1, 3)) b += "BUFR";
            if (g.chance(1, 3)) b.insert(0, "BUFR");
            if (g.boolean()) b += "7777";
            while (b.size() < 4) b += '7';
            return "BUFR" + len3(b.size() + 8) + g.bytes(1) + b;
        }
        case 2:
        {
            const auto& s = g.pick(fuzz::bufr_samples());
            std::vector<Found> one;
            *valid = scan_bufr(s.data, 0, one) == CLEAN && one.size() == 1 && one[0].data == s.data;
            return s.data;
        }
        default:
        {
            ref::GenOpts o;
            o.small = true;
            ref::Message m = ref::gen_message(g, o);
            *valid = true;
            return ref::write(m, g, m.compressible && g.boolean());
        }
    }
}

std::string crex_message(Gen& g, bool* valid)
{
    *valid = false;
    switch (g.draw(4))
    {
        case 0: case 1:
        {
            std::string r = "CREX++";
            unsigned n = g.size(12);
            static const char* const bits[] = {"+", "++", "+++", "\r", "\n", "\r\n", "\r\r\n", "7", "77", "777", "7777", " ", "T000103 A000", "++\r\n777", "++\r\n7", "++ 7777", "++\r\n++\r\n", "CREX++", "CREX"};
            { static const char* const st[] = {"\r\r\n", "A", " "}; r += g.pick(st); }
            for (unsigned i = 0; i < n; ++i) r += g.chance(3, 4) ? std::string(g.pick(bits)) : g.ascii(g.size(6));
            static const char* const nl[] = {"\r\r\n", "\r\n", "\n", "\r", "\n\n\n\n"};
            return r + "++" + g.pick(nl) + "7777";
        }
        case 2: *valid = true; return g.pick(fuzz::crex_samples()).data;
        default:
        {
            refc::GenOpts o;
            o.small = true;
            *valid = true;
            std::string t = refc::write(refc::gen_message(g, o), g);
            // Without what follows the end
            size_t e = t.rfind("7777");
            return t.substr(0, e + 4);
        }
    }
}

struct Reader
{
    bool crex;
    bool read(FILE* f, std::string& buf, const char* name, off_t* off) const
    {
        return crex ? CrexBulletin::read(f, buf, name, off) : BufrBulletin::read(f, buf, name, off);
    }
    void write(const std::string& buf, FILE* f, const char* name) const
    {
        if (crex) CrexBulletin::write(buf, f, name); else BufrBulletin::write(buf, f, name);
    }
};

struct Closer { FILE* f; ~Closer() { if (f) fclose(f); } };

// Read all of the stream, compare with the messages expected
void read_all(Ctx& c, const Reader& r, FILE* f, const std::vector<Found>& exp, End end, off_t base, size_t size, const char* name, bool fails, const char* what)
{
    std::string buf = "rubbish";
    off_t offset = -1;
    for (size_t i = 0; i < exp.size(); ++i)
    {
        bool use_off = i % 3 != 1;
        bool got;
        try { got = r.read(f, buf, name, use_off ? &offset : nullptr); }
        catch (error& e) { PBT_FAIL(what << ": reading message " << i << " of " << exp.size() << " failed: " << e.what()); }
        PBT_CHECK(got, what << ": end of file instead of message " << i << " of " << exp.size() << " which is at offset " << exp[i].offset);
        PBT_CHECK(buf.size() == exp[i].data.size() && buf == exp[i].data, what << ": message " << i << " is " << buf.size() << " bytes " << hex(buf, 80) << " instead of " << exp[i].data.size() << " bytes " << hex(exp[i].data, 80));
        if (use_off) PBT_CHECK(offset == base + (off_t)exp[i].offset, what << ": offset of message " << i << " is " << offset << " instead of " << base + (off_t)exp[i].offset);
        off_t at = ftello(f);
        PBT_CHECK(at == base + (off_t)(exp[i].offset + exp[i].data.size()), what << ": the stream is at " << at << " after message " << i << " instead of " << base + (off_t)(exp[i].offset + exp[i].data.size()));
    }
    for (unsigned i = 0; i < 2; ++i)
    {
        bool got, err = false;
        std::string why;
        try { got = r.read(f, buf, name, &offset); }
        catch (error& e) { err = true; got = false; why = e.what(); }
        if (end == CLEAN && !fails)
        {
            PBT_CHECK(!err, what << ": after the last message: " << why);
            PBT_CHECK(!got, what << ": a message was read after the last: " << hex(buf, 100));
        } else {
            PBT_CHECK(err, what << ": after " << exp.size() << " messages, " << (got ? "a message was read: " + hex(buf, 100) : std::string("end of file was reported")) << " instead of an error");
            if (name) PBT_CHECK(why.find(name) != std::string::npos, what << ": the error does not tell the name of the file: " << why);
            break;
        }
    }
}

void run(Ctx& c)
{
    Gen& g = c.g;
    Reader r{g.chance(1, 3)};
    c.evaluations = 1;
    const char* name = g.boolean() ? "some/file.bufr" : nullptr;
    std::string data;
    std::vector<std::string> msgs;
    unsigned n = g.size(6);
    bool all_valid = true;
    for (unsigned i = 0; i < n; ++i)
    {
        if (g.boolean()) data += junk(g, r.crex);
        bool valid;
        msgs.push_back(r.crex ? crex_message(g, &valid) : bufr_message(g, &valid));
        all_valid = all_valid && valid;
        data += msgs.back();
    }
    if (g.boolean()) data += junk(g, r.crex);
    c.set_sample(strf("%s, %u messages, %zu bytes: ", r.crex ? "CREX" : "BUFR", n, data.size()) + quote(data, 300));
    bool cut = data.size() && g.chance(1, 4);
    if (cut)
    {
        size_t p = g.chance(1, 2) ? data.size() - std::min<size_t>(data.size(), g.draw(20)) : g.draw(data.size());
        data.resize(p);
    }
    std::vector<Found> exp;
    End end = r.crex ? scan_crex(data, 0, exp) : scan_bufr(data, 0, exp);
    if (end == CUT) c.label("cut");
    if (end == BAD_LENGTH) c.label("bad length");

    // Delivered by a stream
    {
        static const size_t chunks[] = {1, 2, 3, 7, 64, 4096, 1u << 20};
        static const off_t bases[] = {0, 0, 13, 0x7ffffff0, 0x80000000, 0xfffffffc, 0x123456789a};
        Source s{&data, g.pick(bases), 0, g.pick(chunks), SIZE_MAX};
        if (data.size() > 1000000) s.chunk = 65536;
        FILE* f = fopencookie(&s, "r", {src_read, nullptr, src_seek, nullptr});
        Closer cl{f};
        if (g.chance(1, 4) && data.size() < 1000000) setvbuf(f, nullptr, _IONBF, 0);
        read_all(c, r, f, exp, end, s.base, data.size(), name, false, "reading");
    }
    // From a file
    if (g.chance(1, 8))
    {
        FILE* f = tmpfile();
        Closer cl{f};
        PBT_CHECK(data.empty() || fwrite(data.data(), data.size(), 1, f) == 1, "cannot write scratch file");
        rewind(f);
        read_all(c, r, f, exp, end, 0, data.size(), name, false, "reading a file");
        // Any position can be a start
        if (!data.empty())
        {
            size_t p = g.draw(data.size() + 1);
            std::vector<Found> e2;
            End end2 = r.crex ? scan_crex(data, p, e2) : scan_bufr(data, p, e2);
            clearerr(f);
            fseeko(f, p, SEEK_SET);
            read_all(c, r, f, e2, end2, 0, data.size(), name, false, "reading from the middle");
        }
        c.label("file");
    }
    // The input fails at some point: what comes before is intact, the failure is not mistaken for the end
    if (g.chance(1, 3))
    {
        size_t at = g.draw(data.size() + 1);
        std::string head = data.substr(0, at);
        std::vector<Found> e2;
        End end2;
        end2 = r.crex ? scan_crex(head, 0, e2) : scan_bufr(head, 0, e2);
        Source s{&data, 0, 0, (size_t)g.range(1, 100), at};
        FILE* f = fopencookie(&s, "r", {src_read, nullptr, src_seek, nullptr});
        Closer cl{f};
        setvbuf(f, nullptr, _IONBF, 0);
        read_all(c, r, f, e2, end2, 0, data.size(), name, true, "input that fails");
        c.label("input failure");
    }
    // Writing then reading is the identity
    if (!msgs.empty())
    {
        std::vector<Found> e2;
        size_t pos = 0;
        bool ok = true;
        std::vector<Found> alone;
        for (const auto& m: msgs)
        {
            std::vector<Found> one;
            if ((r.crex ? scan_crex(m, 0, one) : scan_bufr(m, 0, one)) != CLEAN || one.size() != 1 || one[0].data != m) ok = false;
            e2.push_back({pos, m});
            pos += m.size() + (r.crex ? 3 : 0);
        }
        if (ok)
        {
            Sink k{"", SIZE_MAX};
            FILE* f = fopencookie(&k, "w", {nullptr, sink_write, nullptr, nullptr});
            {
                Closer cl{f};
                for (const auto& m: msgs) r.write(m, f, name);
            }
            std::string e;
            for (const auto& m: msgs) { e += m; if (r.crex) e += "\r\r\n"; }
            PBT_CHECK(k.data == e, "the bytes written are " << hex(k.data, 100) << " instead of " << hex(e, 100));
            Source s{&k.data, 0, 0, 64, SIZE_MAX};
            FILE* f1 = fopencookie(&s, "r", {src_read, nullptr, src_seek, nullptr});
            Closer cl1{f1};
            read_all(c, r, f1, e2, CLEAN, 0, k.data.size(), name, false, "reading what was written");
            c.label("written");
            // A failure to write is reported
            Sink k2{"", (size_t)g.draw(e.size())};
            FILE* f2 = fopencookie(&k2, "w", {nullptr, sink_write, nullptr, nullptr});
            Closer cl2{f2};
            setvbuf(f2, nullptr, _IONBF, 0);
            bool err = false;
            std::string why;
            try { for (const auto& m: msgs) r.write(m, f2, name); }
            catch (error_system& x) { err = true; why = x.what(); }
            PBT_CHECK(err, "a failure to write after " << k2.fail_at << " of " << e.size() << " bytes was not reported");
            if (name) PBT_CHECK(why.find(name) != std::string::npos, "the error does not tell the name of the file: " << why);
            PBT_CHECK(e.compare(0, k2.data.size(), k2.data) == 0, "bytes written before a failure are not the right ones");
        }
    }
    // The messages read are the ones that decode
    if (all_valid && !r.crex && !cut && n && g.chance(1, 10))
    {
        PBT_CHECK(exp.size() == msgs.size(), exp.size() << " messages found out of " << msgs.size());
        for (size_t i = 0; i < exp.size(); ++i) PBT_CHECK(exp[i].data == msgs[i], "message " << i << " is not the one added");
        c.label("all valid");
    }
    if (data.size() > 4 && (!exp.empty() || end != CLEAN)) c.nontrivial(data);
    c.label(strf("%zu messages", exp.size()));
}

void init() { model::init_tables(); fuzz::bufr_samples(); fuzz::crex_samples(); refc::tabs(); }

Register r({"C15", "streams of generated, sample and arbitrary BUFR or CREX messages with junk between them (partial and overlapping signatures and ends), delivered in pieces, at large offsets, cut at any point, or failing at any point; the oracle searches the whole byte string; non trivial: at least one message start; distinct: stream bytes",
        run, init, 150000, 3000000, true});
}
