// C19: bitmaps attach each value to the right variable
#include "fuzz.h"
#include <wreport/error.h>
#include <climits>

using namespace wreport;
using namespace pbt;

namespace {
using model::fxy;

template<typename F> bool attempt(F f)
{
    try { f(); return true; } catch (wreport::error&) { return false; }
}

void labels(Ctx& c, const ref::Message& m)
{
    if (m.n_reuse) c.label("bitmap reused");
    if (m.n_bitmaps > 1) c.label("more than one bitmap");
    if (m.n_attrs) c.label("attributes");
    if (m.n_af) c.label("with associated fields");
    if (m.n_delayed) c.label("with delayed replications");
}

void decode_side(Ctx& c)
{
    ref::GenOpts o;
    o.want_bitmaps = true;
    o.small = c.g.chance(1, 4);
    o.only_compressible = c.g.chance(2, 3);
    ref::Message m = ref::gen_message(c.g, o);
    c.set_sample(m.describe());
    std::string plain = ref::write(m, c.g, false);
    ref::compare(m, *BufrBulletin::decode(plain), "uncompressed message");
    c.label("decoded");
    if (m.compressible)
    {
        ref::compare(m, *BufrBulletin::decode(ref::write(m, c.g, true)), "compressed message");
        c.label("decoded compressed");
    }
    labels(c, m);
    if (m.n_bitmaps && m.n_attrs) c.nontrivial(plain);
}

void encode_side(Ctx& c)
{
    ref::GenOpts o;
    o.want_bitmaps = true;
    o.for_encode = true;
    o.small = c.g.chance(1, 4);
    ref::Message m = ref::gen_message(c.g, o);
    c.set_sample(m.describe());
    auto b = ref::build(m);
    if (c.g.chance(1, 3) && ref::restate(c.g, m, *b)) c.label("values stored with other definitions");
    std::string buf = b->encode();
    ref::Parsed p = ref::parse(buf);
    std::string data = ref::data_uncompressed(m);
    if (p.data.size() > data.size()) data += '\0';
    PBT_CHECK(p.data == data, "section 4 differs from the expected one: " << hex(p.data) << " instead of " << hex(data));
    auto d = BufrBulletin::decode(buf);
    if (m.h.optional.size() % 2) m.h.optional += '\0';
    ref::compare(m, *d, "decoded");
    c.label("encoded");
    labels(c, m);
    if (m.n_bitmaps && m.n_attrs) c.nontrivial(buf);
    if (!m.n_bitmaps) return;

    // Bitmaps that do not match the descriptors, or the variables
    unsigned s = (unsigned)c.g.draw(b->subsets.size());
    Subset& sub = b->subsets[s];
    std::vector<size_t> bm;
    for (size_t i = 0; i < m.subsets[s].vars.size(); ++i)
        if (m.subsets[s].vars[i].kind == ref::BITMAP) bm.push_back(i);
    if (bm.empty()) return;
    size_t pos = c.g.pick(bm);
    model::code_t op = m.subsets[s].vars[pos].code;
    // Find the operator and see if the length is in the descriptors
    size_t k = 0;
    unsigned nth = 0;
    for (size_t i = 0; i < pos; ++i) if (m.subsets[s].vars[i].kind == ref::BITMAP) ++nth;
    unsigned seen = 0;
    bool fixed = false;
    for (; k + 2 < m.desc.size(); ++k)
        if (k && model::F(m.desc[k]) == 1 && (m.desc[k - 1] == fxy(2, 22, 0) || m.desc[k - 1] == fxy(2, 23, 0) || m.desc[k - 1] == fxy(2, 36, 0)) && (m.desc[k + 1] == fxy(0, 31, 31) || m.desc[k + 2] == fxy(0, 31, 31)))
        {
            if (seen++ == nth) { fixed = model::Y(m.desc[k]) != 0; break; }
        }
    switch (c.g.draw(2))
    {
        case 0:
        {
            // Not a bitmap
            if (!m.tab->find(fxy(0, 12, 101))) return;
            sub[pos] = Var(b->tables.btable->query(fxy(0, 12, 101)), 273.15);
            PBT_CHECK(!attempt([&] { b->encode(); }), "B12101 was encoded in place of a bitmap");
            c.label("missing bitmap rejected");
            break;
        }
        case 1:
        {
            // Of another length
            if (!fixed) return;
            std::string bits = m.subsets[s].vars[pos].str;
            if (bits.size() > 1 && c.g.boolean()) bits.pop_back();
            else bits += '-';
            sub[pos] = Var(b->tables.get_bitmap(op, bits), bits);
            PBT_CHECK(!attempt([&] { b->encode(); }), "a bitmap of length " << bits.size() << " was encoded for descriptors that ask for " << m.subsets[s].vars[pos].str.size());
            c.label("bitmap of wrong length rejected");
            break;
        }
    }
}

// Bitmaps and substituted values that cannot be applied
void reject_side(Ctx& c)
{
    ref::GenOpts o;
    o.allow_bitmaps = false;
    o.small = c.g.chance(1, 2);
    o.only_compressible = c.g.boolean();
    ref::Message m = ref::gen_message(c.g, o);
    if (m.features.count("C04") && m.desc.back() != fxy(2, 4, 0)) throw Discard("associated field still active");
    bool compressed = m.compressible && c.g.boolean();
    // Number of data elements before the bitmap
    unsigned min = UINT_MAX;
    for (auto& s: m.subsets)
    {
        unsigned n = 0;
        for (auto& v: s.vars) if (model::F(v.code) == 0) ++n;
        min = std::min(min, n);
    }
    auto add = [&](unsigned bits, uint64_t v) {
        for (auto& s: m.subsets)
        {
            ref::Field f;
            f.bits = bits;
            f.v = v;
            f.uniform = true;
            s.fields.push_back(f);
        }
    };
    // Enough data that its end is not what stops the decoder
    auto padding = [&](unsigned n) {
        for (auto& s: m.subsets)
            for (unsigned i = 0; i < n && (compressed || &s == &m.subsets.back()); ++i)
            {
                ref::Field f;
                f.bits = 8;
                f.uniform = true;
                s.fields.push_back(f);
            }
    };
    model::code_t op = c.g.boolean() ? fxy(2, 22, 0) : fxy(2, 23, 0);
    std::string what;
    bool ok = false;
    switch (c.g.draw(6))
    {
        case 0: case 1: // too long, or just right
        {
            unsigned k = c.g.boolean() ? min + 1 + (unsigned)c.g.draw(3) : min;
            if (!k || k > 255) throw Discard("bitmap length");
            bool delayed = c.g.boolean() && m.tab->find(fxy(0, 31, 1)) && m.tab->find(fxy(0, 31, 1))->bits == 8;
            m.desc.push_back(op);
            m.desc.push_back(fxy(1, 1, delayed ? 0 : k));
            if (delayed) { m.desc.push_back(fxy(0, 31, 1)); add(8, k); }
            m.desc.push_back(fxy(0, 31, 31));
            for (unsigned i = 0; i < k; ++i) add(1, c.g.boolean());
            ok = k == min;
            if (!ok) padding(40);
            what = strf("bitmap of %u bits over %u variables", k, min);
            c.label(ok ? "longest possible bitmap" : "too long bitmap");
            break;
        }
        case 2: // replicates something else
            m.desc.push_back(op);
            m.desc.push_back(fxy(1, 1, 1));
            m.desc.push_back(m.tab->nums[c.g.draw(m.tab->nums.size())]->code);
            padding(40);
            what = "bitmap made of something else than B31031";
            c.label("bitmap of other elements");
            break;
        case 3: // replicates more than one element
            m.desc.push_back(op);
            m.desc.push_back(fxy(1, 2, 1));
            m.desc.push_back(fxy(0, 31, 31));
            m.desc.push_back(fxy(0, 31, 31));
            padding(40);
            what = "bitmap that replicates two elements";
            c.label("bitmap of two elements");
            break;
        case 4: // marker without a bitmap
            m.desc.push_back(fxy(2, 23, 255));
            padding(40);
            what = "substituted value without a bitmap";
            c.label("no bitmap");
            break;
        case 5: // one marker too many
        {
            if (!min) throw Discard("no variables");
            unsigned k = 1 + (unsigned)c.g.draw(std::min(min, 20u));
            m.desc.push_back(fxy(2, 23, 0));
            m.desc.push_back(fxy(1, 1, k));
            m.desc.push_back(fxy(0, 31, 31));
            unsigned present = 0;
            for (unsigned i = 0; i < k; ++i)
            {
                bool absent = c.g.boolean();
                add(1, absent);
                if (!absent) ++present;
            }
            for (unsigned i = 0; i < present + 1; ++i) m.desc.push_back(fxy(2, 23, 255));
            padding(200);
            // The values are zeros: keep to what can be decoded
            what = strf("%u substituted values for %u bits", present + 1, present);
            c.label("too many substituted values");
            break;
        }
    }
    std::string buf = ref::write(m, c.g, compressed);
    c.set_sample(m.describe() + ": " + what + (compressed ? " (compressed)" : ""));
    bool accepted = attempt([&] { BufrBulletin::decode(buf); });
    PBT_CHECK(accepted == ok, what << (ok ? " was rejected" : " was accepted"));
    c.nontrivial(buf);
}

void run(Ctx& c)
{
    c.evaluations = 1;
    switch (c.g.draw(5))
    {
        case 0: case 1: decode_side(c); break;
        case 2: case 3: encode_side(c); break;
        case 4: reject_side(c); break;
    }
}

Register r({"C19", "templates with bitmap blocks (quality and substituted values, new, reused and cancelled bitmaps) decoded and encoded against the reference, and bitmaps that cannot be applied; non trivial: at least one attribute selected by a bitmap, or a rejected bitmap; distinct: message bytes",
        run, model::init_tables, 150000, 1500000, true});
}
