// C05: decoding arbitrary text as CREX is memory-safe and ends cleanly
#include "fuzz.h"
#include "refcrex.h"
#include <wreport/error.h>

using namespace wreport;
using namespace pbt;
using model::fxy;
using model::code_t;

namespace {

template<typename F> bool attempt(F f)
{
    try { f(); return true; } catch (wreport::error&) { return false; }
}

std::string exact(const std::string& s)
{
    std::string r;
    r.reserve(s.size());
    r.assign(s);
    return r;
}

std::string random_desc(Gen& g, const refc::Tab& t)
{
    static const unsigned ox[] = { 1, 2, 3, 4, 5, 6, 7, 8, 22, 23, 24, 25, 32, 36, 37, 41, 60, 63 };
    static const unsigned oy[] = { 0, 1, 2, 3, 7, 8, 31, 32, 33, 64, 120, 127, 128, 129, 136, 200, 254, 255 };
    switch (g.draw(9))
    {
        case 0: case 1: return refc::letter_code(g.pick(t.nums)->code);
        case 2: return refc::letter_code(g.pick(t.strs)->code);
        case 3: return t.seqs.empty() ? "D01001" : refc::letter_code(g.pick(t.seqs));
        case 4: return refc::letter_code(fxy(1, (unsigned)g.draw(5), (unsigned)g.edgy(0, 255)));
        case 5: return refc::letter_code(fxy(1, 1 + (unsigned)g.draw(4), 0)) + (g.boolean() ? "" : strf(" B310%02u", (unsigned)g.pick({ 0, 1, 2, 11, 12, 21, 31 })));
        case 6: return refc::letter_code(fxy(2, g.pick(ox), g.pick(oy)));
        case 7: return g.boolean() ? std::string("B31031") : std::string("B33007");
        default: return std::string(1, g.pick({ 'B', 'R', 'C', 'D', 'E', 'X', 'b' })) + strf("%0*u", (int)g.range(1, 6), (unsigned)g.draw(1000000));
    }
}

std::string random_group(Gen& g)
{
    switch (g.draw(8))
    {
        case 0: return std::string(1 + g.draw(12), '/');
        case 1: return "-" + strf("%0*u", (int)g.range(1, 10), (unsigned)g.draw(100000));
        case 2: return g.ascii(1 + g.draw(12));
        case 3: return std::string(1 + g.draw(14), '9');
        case 4: return strf("%04u", (unsigned)g.pick({ 0, 1, 2, 3, 9999, 1000, 10 }));
        case 5: return g.pick({ "+", "++", "E", "7777", "SUPP", "-", "+-", "//" });
        default: return strf("%0*u", (int)g.range(1, 10), (unsigned)g.edgy(0, 1000000));
    }
}

std::string soup(Gen& g)
{
    const refc::Tab& t = g.pick(refc::tabs());
    std::string r = "CREX++ ";
    r += strf("T00%02u%02u", t.edition, t.version);
    r += g.boolean() ? " A000" : strf(" A%06u", (unsigned)g.draw(1000000));
    for (unsigned n = g.size(8); n; --n) r += (g.chance(1, 12) ? "" : " ") + random_desc(g, t);
    if (g.chance(1, 4)) r += " E";
    r += "++\r\r\n";
    for (unsigned n = g.size(25); n; --n) r += random_group(g) + (g.chance(1, 8) ? "" : " ");
    if (!g.chance(1, 4)) r += "++ 7777";
    return r;
}

std::string mutate_text(Gen& g, std::string b)
{
    const refc::Tab& t = g.pick(refc::tabs());
    for (unsigned n = 1 + g.size(4); n; --n)
    {
        if (b.empty()) return b;
        size_t p = g.draw(b.size());
        // Start and end of a token
        size_t s = b.find_last_of(" \r\n", p);
        s = s == std::string::npos ? 0 : s + 1;
        size_t e = b.find_first_of(" \r\n", p);
        if (e == std::string::npos) e = b.size();
        if (e < s) e = s;
        switch (g.draw(12))
        {
            case 0: b[p] = (char)g.range(32, 126); break;
            case 1: b[p] = g.pick({ '/', '+', '-', ' ', '0', '9', 'E', '\n', '\0', (char)0xff }); break;
            case 2: b.erase(p, 1 + g.size(6)); break;
            case 3: b.insert(p, std::string(1, g.pick({ '/', '+', '-', ' ', '0', '9', 'E' }))); break;
            case 4: b.resize(p); break;
            case 5: b.erase(s, e - s); break;
            case 6: b.insert(s, b.substr(s, e - s) + " "); break;
            case 7: b.replace(s, e - s, random_group(g)); break;
            case 8: b.replace(s, e - s, random_desc(g, t)); break;
            case 9: { size_t q = b.find(" A"); if (q != std::string::npos && q + 5 <= b.size()) b.insert(q + 5, " " + random_desc(g, t)); break; }
            case 10: { size_t q = b.find("++", 6); if (q != std::string::npos) b.insert(q, g.boolean() ? " E" : " "); break; }
            case 11: return fuzz::mutate(g, b, fuzz::crex_samples());
        }
    }
    return b;
}

void any_text(Ctx& c)
{
    Gen& g = c.g;
    std::string buf;
    bool good = false;
    switch (g.draw(8))
    {
        case 0: buf = g.chance(1, 6) ? g.bytes(g.size(60)) : "CREX++" + g.ascii(g.size(60)); break;
        case 1: case 2: buf = soup(g); break;
        case 3: case 4: case 5:
        {
            refc::GenOpts o;
            o.small = true;
            refc::Message m = refc::gen_message(g, o);
            buf = refc::write(m, g);
            if (g.chance(1, 8)) good = true;
            else buf = mutate_text(g, buf);
            break;
        }
        default:
        {
            const auto& s = g.pick(fuzz::crex_samples());
            std::string d = s.data;
            // Long messages are shortened in the middle of their data
            if (d.size() > 2000) { size_t k = 600 + g.draw(1000); d = d.substr(0, k) + "++ 7777"; }
            buf = mutate_text(g, d);
            break;
        }
    }
    buf = exact(buf);
    c.set_sample(strf("%zu bytes: ", buf.size()) + quote(buf, 1000));
    bool costly = false;
    bool header = attempt([&] {
        auto b = CrexBulletin::decode_header(buf);
        fuzz::inspect(*b);
        std::vector<code_t> l(b->datadesc.begin(), b->datadesc.end());
        costly = fuzz::expensive_template(l, (unsigned)buf.size());
    });
    if (costly) throw Discard("work out of proportion with the size of the message");
    bool full = attempt([&] { auto b = CrexBulletin::decode(buf, "name", 10); fuzz::inspect(*b); });
    if (g.boolean())
    {
        bool v = attempt([&] { auto b = CrexBulletin::decode_verbose(buf, fuzz::null_stream(), "name"); fuzz::inspect(*b); });
        PBT_CHECK(v == full, "the verbose decoder " << (v ? "accepts" : "rejects") << " a message that the plain one " << (full ? "accepts" : "rejects"));
    }
    PBT_CHECK(header || !full, "a message decodes but its header does not");
    if (g.chance(1, 8))
    {
        size_t n = fuzz::leaked([&] {
            attempt([&] { CrexBulletin::decode_header(buf); });
            attempt([&] { CrexBulletin::decode(buf); });
            attempt([&] { CrexBulletin::decode_verbose(buf, fuzz::null_stream()); });
        });
        PBT_CHECK(!n, n << " bytes of memory are lost every time the message is decoded");
        c.label("leaks");
    }
    if (good) PBT_CHECK(full, "a well formed message was rejected");
    c.label(full ? "accepted" : header ? "header accepted" : "rejected");
    if (header) c.nontrivial(buf);
}

// What ends before its end section is not a message
void truncated(Ctx& c)
{
    refc::GenOpts o;
    o.small = c.g.boolean();
    refc::Message m = refc::gen_message(c.g, o);
    std::string buf = refc::write(m, c.g);
    size_t end = buf.rfind("7777");
    size_t cut = c.g.draw(end + 4);
    std::string t = exact(buf.substr(0, cut));
    c.set_sample(strf("cut at %zu: ", cut) + quote(t, 1000));
    PBT_CHECK(!attempt([&] { CrexBulletin::decode(t); }), "a message cut at " << cut << " of " << end + 4 << " characters was accepted");
    c.label("cut message");
    c.nontrivial(t);
}

void run(Ctx& c)
{
    c.evaluations = 1;
    if (c.g.chance(1, 6)) truncated(c);
    else any_text(c);
}

void init() { model::init_tables(); fuzz::crex_samples(); refc::tabs(); }

Register r({"C05", "mutated samples and generated CREX texts (characters and tokens), random descriptors and groups, raw bytes; run under AddressSanitizer and UndefinedBehaviorSanitizer with buffers of exact size, and some decoded again to see if memory is lost; non trivial: the header was accepted, or a cut message; distinct: input text",
        run, init, 300000, 15000000, true});
}
