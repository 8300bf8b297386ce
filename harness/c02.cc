// C02: BUFR decoding and encoding follow the FM-94 wire format
#include "refbufr.h"

using namespace wreport;
using namespace pbt;

namespace {

void decode_side(Ctx& c)
{
    ref::GenOpts o;
    o.allow_huge = true;
    o.small = c.g.chance(1, 5);
    o.only_compressible = c.g.chance(2, 3);
    ref::Message m = ref::gen_message(c.g, o);
    c.set_sample(m.describe());
    std::string plain = ref::write(m, c.g, false);
    auto d = BufrBulletin::decode(plain);
    ref::compare(m, *d, "uncompressed message");
    PBT_CHECK(!d->compression, "uncompressed message reported as compressed");
    c.label("decoded");
    if (m.compressible)
    {
        std::string packed = ref::write(m, c.g, true);
        auto e = BufrBulletin::decode(packed);
        ref::compare(m, *e, "compressed message");
        PBT_CHECK(e->compression, "compressed message reported as not compressed");
        c.label("decoded compressed");
        if (m.subsets.size() > 1) c.label("decoded compressed, more subsets");
    }
    if (m.n_attrs) c.label("bitmap attributes");
    if (m.n_af) c.label("associated fields");
    if (m.n_altered) c.label("altered definitions");
    for (const auto& f: m.features) c.label(f);
    if (m.subsets[0].vars.size() > 1) c.nontrivial(plain);
}

void encode_side(Ctx& c)
{
    ref::GenOpts o;
    o.allow_huge = true;
    o.for_encode = true;
    o.small = c.g.chance(1, 5);
    ref::Message m = ref::gen_message(c.g, o);
    c.set_sample(m.describe());
    auto b = ref::build(m);
    if (c.g.chance(1, 3) && ref::restate(c.g, m, *b)) c.label("values stored with other definitions");
    // There are tables only for master table 0: once they are loaded any other
    // can be written
    if (c.g.chance(1, 4)) b->master_table_number = (uint8_t)(m.h.mtn = (unsigned)c.g.draw(256));
    std::string buf = b->encode();
    ref::Parsed p = ref::parse(buf);
    auto eq = [&](const char* n, unsigned a, unsigned e) {
        if (a != e) throw Fail(strf("encoded field %s is %u instead of %u", n, a, e));
    };
    eq("edition", p.h.edition, m.h.edition);
    eq("master table", p.h.mtn, m.h.mtn);
    eq("category", p.h.cat, m.h.cat);
    eq("subcategory", p.h.subcat, m.h.subcat);
    eq("local subcategory", p.h.subcat_local, m.h.subcat_local);
    eq("centre", p.h.centre, m.h.centre);
    eq("subcentre", p.h.subcentre, m.h.subcentre);
    eq("update sequence number", p.h.usn, m.h.usn);
    eq("master table version", p.h.mtv, m.h.mtv);
    eq("local table version", p.h.mtvl, m.h.mtvl);
    if (m.h.edition == 4) eq("year", p.h.year, m.h.year);
    else eq("year of century", p.h.year % 100, m.h.year % 100);
    eq("month", p.h.month, m.h.month);
    eq("day", p.h.day, m.h.day);
    eq("hour", p.h.hour, m.h.hour);
    eq("minute", p.h.minute, m.h.minute);
    eq("second", p.h.second, m.h.second);
    eq("number of subsets", p.subsets, (unsigned)m.subsets.size());
    eq("compression flag", p.compressed, 0);
    eq("optional section flag", p.has_optional, !m.h.optional.empty());
    std::string opt = m.h.optional;
    if (p.h.optional.size() == opt.size() + 1) opt += '\0';
    PBT_CHECK(p.h.optional == opt, "optional section " << hex(p.h.optional) << " expected " << hex(m.h.optional));
    // A trailing zero can follow the descriptors as padding
    PBT_CHECK(p.desc == m.desc, "descriptors differ from the ones of the bulletin");
    unsigned nbits;
    std::string data = ref::data_uncompressed(m, &nbits);
    PBT_CHECK(p.data.size() >= data.size() && p.data.size() <= data.size() + 1, "section 4 has " << p.data.size() << " bytes of data for " << nbits << " bits");
    if (p.data.size() > data.size()) data += '\0';
    if (p.data != data)
    {
        size_t bit = 0;
        while (((p.data[bit / 8] ^ data[bit / 8]) & (0x80 >> (bit % 8))) == 0) ++bit;
        size_t pos = 0;
        for (size_t s = 0; s < m.subsets.size(); ++s)
            for (size_t f = 0; f < m.subsets[s].fields.size(); ++f)
            {
                pos += m.subsets[s].fields[f].bits;
                if (pos > bit) PBT_FAIL("section 4 differs at bit " << bit << ", in field " << f << " of subset " << s << " (" << m.subsets[s].fields[f].bits << " bits, " << (m.subsets[s].fields[f].missing ? "missing" : "not missing") << " value " << m.subsets[s].fields[f].v << " " << quote(m.subsets[s].fields[f].s) << ")");
            }
        PBT_FAIL("section 4 padding is not zero");
    }
    c.label("encoded");
    if (m.n_attrs) c.label("bitmap attributes");
    if (m.n_af) c.label("associated fields");
    if (m.n_altered) c.label("altered definitions");
    for (const auto& f: m.features) c.label(f);
    if (m.subsets[0].vars.size() > 1) c.nontrivial(buf);
}

void run(Ctx& c)
{
    c.evaluations = 1;
    if (c.g.chance(1, 3)) encode_side(c);
    else decode_side(c);
}

Register r({"C02", "messages laid out by an independent FM-94 writer, uncompressed and compressed, decoded by the library; bulletins encoded by the library parsed and compared bit by bit with the reference; non trivial: more than one variable; distinct: message bytes",
        run, model::init_tables, 200000, 1500000, true});
}
