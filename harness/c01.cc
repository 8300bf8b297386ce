// C01: BUFR encode then decode returns the same bulletin
#include "refbufr.h"

using namespace wreport;
using namespace pbt;

namespace {

void run(Ctx& c)
{
    ref::GenOpts o;
    o.allow_huge = true;
    o.for_encode = true;
    o.small = c.g.chance(1, 5);
    ref::Message m = ref::gen_message(c.g, o);
    c.set_sample(m.describe());
    auto b = ref::build(m);
    if (c.g.chance(1, 3) && ref::restate(c.g, m, *b)) c.label("values stored with other definitions");
    std::string buf = b->encode();
    // A message that can be found in a file and read whole
    PBT_CHECK(buf.size() >= 12 && !buf.compare(0, 4, "BUFR") && !buf.compare(buf.size() - 4, 4, "7777")
           && ((size_t)(unsigned char)buf[4] << 16 | (size_t)(unsigned char)buf[5] << 8 | (unsigned char)buf[6]) == buf.size(),
           "the encoded message of " << buf.size() << " bytes does not declare its length or has no end");
    auto d = BufrBulletin::decode(buf);
    // The optional section is padded to an even length
    if (m.h.optional.size() % 2) m.h.optional += '\0';
    ref::compare(m, *d, "decoded");
    // Encoding is repeatable and leaves the bulletin as it was
    PBT_CHECK(b->encode() == buf, "second encoding of the same bulletin differs");
    PBT_CHECK(d->encode() == buf, "encoding of the decoded bulletin differs");
    c.evaluations = 1;
    if (m.n_altered) c.label("altered definitions");
    if (m.n_attrs) c.label("bitmap attributes");
    if (m.n_af) c.label("associated fields");
    if (m.n_delayed) c.label("delayed replication");
    if (m.n_strings) c.label("strings");
    if (m.n_missing) c.label("missing values");
    for (const auto& f: m.features) c.label(f);
    c.label(strf("edition %u", m.h.edition));
    if (m.subsets[0].vars.size() > 1) c.nontrivial(buf);
}

Register r({"C01", "random template over shipped tables (elements, sequences, nested replications, operators C01 C02 C03 C04 C05 C06 C07 C08, bitmap blocks), random header and values; non trivial: more than one variable; distinct: encoded bytes",
        run, model::init_tables, 150000, 1000000, true});
}
