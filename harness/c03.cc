// C03: CREX encode then decode returns the same bulletin
#include "refcrex.h"

using namespace wreport;
using namespace pbt;

namespace {

void labels(Ctx& c, const refc::Message& m)
{
    c.label(m.check ? "check digits" : "no check digits");
    if (m.n_delayed) c.label("delayed replication");
    if (m.n_explicit) c.label("explicit replication factor");
    if (m.n_rep) c.label("replication");
    if (m.n_seq) c.label("table D sequence");
    if (m.n_str) c.label("strings");
    if (m.n_neg) c.label("negative values");
    if (m.n_missing) c.label("missing values");
    if (m.subsets.size() > 1) c.label("more subsets");
    c.label(strf("edition %u version %u", m.tab->edition, m.tab->version));
}

void encode_side(Ctx& c)
{
    refc::GenOpts o;
    o.small = c.g.boolean();
    refc::Message m = refc::gen_message(c.g, o);
    c.set_sample(m.describe());
    auto b = refc::build(m);
    std::string buf = b->encode();
    refc::check_text(m, buf);
    auto d = CrexBulletin::decode(buf);
    refc::compare(m, *d, "decoded");
    PBT_CHECK(b->encode() == buf, "second encoding of the same bulletin differs");
    PBT_CHECK(d->encode() == buf, "encoding of the decoded bulletin differs");
    c.label("encoded");
    labels(c, m);
    if (m.subsets[0].size() > 1) c.nontrivial(buf);
}

void decode_side(Ctx& c)
{
    refc::GenOpts o;
    o.small = c.g.boolean();
    o.wide = c.g.chance(1, 4);
    refc::Message m = refc::gen_message(c.g, o);
    std::string buf = refc::write(m, c.g);
    c.set_sample(m.describe() + " as " + quote(buf, 1500));
    if (m.n_wide)
    {
        // The library holds 32 bit integers: other values cannot be decoded
        bool ok = true;
        try { CrexBulletin::decode(buf); } catch (wreport::error&) { ok = false; }
        PBT_CHECK(!ok, "a value that does not fit in 32 bits was decoded as something else");
        c.label("value beyond 32 bits");
        c.nontrivial(buf);
        return;
    }
    auto d = CrexBulletin::decode(buf, "name", 3);
    refc::compare(m, *d, "decoded");
    auto h = CrexBulletin::decode_header(buf);
    PBT_CHECK(h->subsets.empty(), "decode_header decodes subsets");
    PBT_CHECK(h->datadesc == d->datadesc && h->edition_number == d->edition_number && h->master_table_version_number == d->master_table_version_number && h->data_category == d->data_category && h->data_subcategory == d->data_subcategory && h->has_check_digit == d->has_check_digit, "decode_header gives a different header");
    if (m.check && c.g.boolean())
    {
        // A wrong check digit is noticed
        std::string bad = buf;
        size_t end = bad.find("++", 6) + 2;
        // The first character of the data is the first check digit
        while (end < bad.size() && strchr(" \r\n\t", bad[end])) ++end;
        if (!m.subsets[0].empty())
        {
            bad[end] = (char)('0' + (bad[end] - '0' + 1 + c.g.draw(9)) % 10);
            bool ok = true;
            try { CrexBulletin::decode(bad); } catch (wreport::error&) { ok = false; }
            PBT_CHECK(!ok, "a wrong check digit was accepted in " << quote(bad));
            c.label("wrong check digit");
        }
    }
    c.label("decoded");
    labels(c, m);
    if (m.subsets[0].size() > 1) c.nontrivial(buf);
}

void run(Ctx& c)
{
    c.evaluations = 1;
    if (c.g.boolean()) encode_side(c);
    else decode_side(c);
}

void init() { model::init_tables(); refc::tabs(); }

Register r({"C03", "random CREX templates (elements, table D sequences, nested fixed and delayed replications) over all the CREX tables; bulletins are encoded and the text is parsed by an independent reader, texts by an independent writer are decoded; non trivial: more than one variable; distinct: text",
        run, init, 150000, 8000000, true});
}
