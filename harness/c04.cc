// C04: decoding arbitrary bytes as BUFR is memory-safe and ends cleanly
#include "fuzz.h"
#include <wreport/error.h>

using namespace wreport;
using namespace pbt;

namespace {

// True if it was accepted
template<typename F> bool attempt(F f)
{
    try { f(); return true; } catch (wreport::error&) { return false; }
}

// Reading can be refused, but not crash
void look(const Bulletin& b)
{
    fuzz::inspect(b);
}

// Give the library a buffer with nothing readable after its end
std::string exact(const std::string& s)
{
    std::string r;
    r.reserve(s.size());
    r.assign(s);
    return r;
}

void any_bytes(Ctx& c)
{
    std::string desc;
    bool good = false;
    std::string buf = exact(c.g.chance(1, 40) ? c.g.bytes(c.g.size(80)) : fuzz::bufr_input(c.g, &desc, &good));
    c.set_sample(desc + " -> " + strf("%zu bytes: ", buf.size()) + hex(buf, 600));
    if (fuzz::expensive(buf)) throw Discard("work out of proportion with the size of the message");
    bool header = attempt([&] { auto b = BufrBulletin::decode_header(buf); look(*b); });
    bool full = attempt([&] { auto b = BufrBulletin::decode(buf); look(*b); });
    switch (c.g.draw(3))
    {
        case 0: break;
        case 1:
        {
            bool v = attempt([&] { auto b = BufrBulletin::decode_verbose(buf, fuzz::null_stream(), "name"); look(*b); });
            PBT_CHECK(v == full, "the verbose decoder " << (v ? "accepts" : "rejects") << " a message that the plain one " << (full ? "accepts" : "rejects"));
            c.label("verbose");
            break;
        }
        case 2:
        {
            auto o = BufrCodecOptions::create();
            o->decode_adds_undef_attrs = true;
            attempt([&] { auto b = BufrBulletin::decode(buf, *o); look(*b); });
            c.label("with undefined attributes");
            break;
        }
    }
    PBT_CHECK(header || !full, "a message decodes but its header does not");
    if (c.g.chance(1, 6))
    {
        size_t n = fuzz::leaked([&] {
            attempt([&] { BufrBulletin::decode_header(buf); });
            attempt([&] { BufrBulletin::decode(buf); });
            attempt([&] { BufrBulletin::decode_verbose(buf, fuzz::null_stream()); });
        });
        PBT_CHECK(!n, n << " bytes of memory are lost every time the message is decoded");
        c.label("leaks");
    }
    if (good) PBT_CHECK(full, "a well formed message was rejected");
    c.label(full ? "accepted" : header ? "header accepted" : "rejected");
    if (header) c.nontrivial(buf);
}

// Anything cut out of a well formed message must be noticed
void truncated(Ctx& c)
{
    ref::GenOpts o;
    o.small = c.g.boolean();
    o.allow_bitmaps = false;
    ref::Message m = ref::gen_message(c.g, o);
    bool compressed = m.compressible && c.g.boolean();
    std::string buf = ref::write(m, c.g, compressed);
    if (c.g.boolean())
    {
        size_t cut = c.g.draw(buf.size());
        std::string t = exact(buf.substr(0, cut));
        c.set_sample(m.describe() + strf(" cut at %zu of %zu bytes: ", cut, buf.size()) + hex(t, 600));
        PBT_CHECK(!attempt([&] { BufrBulletin::decode(t); }), "a message cut at " << cut << " of " << buf.size() << " bytes was accepted");
        PBT_CHECK(!attempt([&] { BufrBulletin::decode_verbose(t, fuzz::null_stream()); }), "a message cut at " << cut << " of " << buf.size() << " bytes was accepted by the verbose decoder");
        c.label("cut message");
        c.nontrivial(t);
        return;
    }
    // A data section without enough bits for the template
    if (m.n_delayed || compressed || m.features.count("C03") || m.features.count("C05")) throw Discard("size of the data depends on the data");
    unsigned nbits;
    std::string data = ref::data_uncompressed(m, &nbits);
    size_t need = (nbits + 7) / 8;
    if (need < 5) throw Discard("too little data");
    size_t keep = c.g.draw(need - 4);
    ref::Parsed p = ref::parse(buf, false);
    std::string t = buf.substr(0, p.sec[4]);
    size_t len = keep + 4;
    t += (char)(len >> 16); t += (char)(len >> 8); t += (char)len; t += '\0';
    t += data.substr(0, keep) + "7777";
    t[4] = (char)(t.size() >> 16); t[5] = (char)(t.size() >> 8); t[6] = (char)t.size();
    t = exact(t);
    c.set_sample(m.describe() + strf(" with %zu of %zu bytes of data: ", keep, need) + hex(t, 600));
    PBT_CHECK(!attempt([&] { BufrBulletin::decode(t); }), "a message with " << keep << " bytes of data was accepted, but its descriptors ask for " << nbits << " bits");
    c.label("short data section");
    c.nontrivial(t);
}

void run(Ctx& c)
{
    c.evaluations = 1;
    if (c.g.chance(1, 5)) truncated(c);
    else any_bytes(c);
}

void init() { model::init_tables(); fuzz::bufr_samples(); }

Register r({"C04", "mutated samples, mutated generated messages, well formed envelopes around random templates and random bits, raw bytes; run under AddressSanitizer and UndefinedBehaviorSanitizer with buffers of exact size, and some decoded again to see if memory is lost; non trivial: the header was accepted, or a cut message; distinct: input bytes",
        run, init, 60000, 4000000, true});
}
