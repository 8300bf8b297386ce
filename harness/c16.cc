// C16: diff is zero exactly for equal bulletins, subsets and variables
#include "model.h"
#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/notes.h>
#include <sstream>
#include <algorithm>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

// Description of a variable: everything needed to build it any number of times
struct VDesc
{
    Varinfo info;
    bool set = false;
    int ival = 0;
    std::string sval;
    std::vector<VDesc> attrs;

    bool numeric() const { return info->type == Vartype::Integer || info->type == Vartype::Decimal; }

    Var build() const
    {
        Var v(info);
        if (set)
        {
            if (numeric()) v.seti(ival);
            else v.sets(sval);
        }
        for (const auto& a: attrs) v.seta(a.build());
        return v;
    }
};

std::string str_value(Gen& g, unsigned len)
{
    unsigned n = 1 + (unsigned)g.draw(len);
    std::string s;
    for (unsigned i = 0; i < n; ++i) s += (char)g.range('A', 'Z');
    return s;
}

void value(Gen& g, VDesc& d)
{
    d.set = true;
    if (d.numeric()) d.ival = (int)g.edgy(d.info->imin, d.info->imax);
    else if (d.info->type == Vartype::String) d.sval = str_value(g, d.info->len);
    else
    {
        d.sval = g.bytes(d.info->len);
        if (unsigned tail = d.info->bit_len % 8) d.sval.back() = (char)((unsigned char)d.sval.back() & ((1 << tail) - 1));
    }
}

VDesc gen_var(Gen& g, InfoPool& pool, unsigned depth = 0)
{
    VDesc d;
    d.info = pool.any(g);
    // Definitions that allow no value at all are for C06
    while (d.numeric() && d.info->imin > d.info->imax) d.info = pool.shipped(g);
    if (g.chance(4, 5)) value(g, d);
    unsigned n = depth == 0 && g.chance(1, 3) ? 1 + g.size(4) : 0;
    for (unsigned i = 0; i < n; ++i)
    {
        VDesc a = gen_var(g, pool, 1);
        a.attrs.clear();
        bool dup = false;
        for (const auto& o: d.attrs) if (o.info->code == a.info->code) dup = true;
        if (!dup) d.attrs.push_back(a);
    }
    return d;
}

struct BDesc
{
    bool crex = false;
    unsigned h[24];   // header fields
    std::string optional;
    std::vector<Varcode> datadesc;
    std::vector<std::vector<VDesc>> subsets;
};

enum { H_MTN, H_CAT, H_SUBCAT, H_SUBLOC, H_CENTRE, H_SUBCENTRE, H_USN, H_YEAR, H_MONTH, H_DAY, H_HOUR, H_MIN, H_SEC, H_ED, H_MTV, H_MTVL, H_MTVB, H_CHECK, H_COUNT };
const char* hnames[] = { "master_table_number", "data_category", "data_subcategory", "data_subcategory_local", "originating_centre", "originating_subcentre", "update_sequence_number", "rep_year", "rep_month", "rep_day", "rep_hour", "rep_minute", "rep_second", "edition_number", "master_table_version_number", "master_table_version_number_local", "master_table_version_number_bufr", "has_check_digit" };
unsigned hmax[] = { 255, 255, 255, 255, 65535, 65535, 255, 65535, 255, 255, 255, 255, 255, 255, 255, 255, 255, 1 };

template<typename B> void fill(B& b, const BDesc& d)
{
    b.master_table_number = (uint8_t)d.h[H_MTN];
    b.data_category = (uint8_t)d.h[H_CAT];
    b.data_subcategory = (uint8_t)d.h[H_SUBCAT];
    b.data_subcategory_local = (uint8_t)d.h[H_SUBLOC];
    b.originating_centre = (uint16_t)d.h[H_CENTRE];
    b.originating_subcentre = (uint16_t)d.h[H_SUBCENTRE];
    b.update_sequence_number = (uint8_t)d.h[H_USN];
    b.rep_year = (uint16_t)d.h[H_YEAR];
    b.rep_month = (uint8_t)d.h[H_MONTH];
    b.rep_day = (uint8_t)d.h[H_DAY];
    b.rep_hour = (uint8_t)d.h[H_HOUR];
    b.rep_minute = (uint8_t)d.h[H_MIN];
    b.rep_second = (uint8_t)d.h[H_SEC];
    b.edition_number = (uint8_t)d.h[H_ED];
    b.master_table_version_number = (uint8_t)d.h[H_MTV];
    b.master_table_version_number_local = (uint8_t)d.h[H_MTVL];
    b.datadesc = d.datadesc;
    for (unsigned i = 0; i < d.subsets.size(); ++i)
    {
        Subset& s = b.obtain_subset(i);
        for (const auto& v: d.subsets[i]) s.store_variable(v.build());
    }
}

std::unique_ptr<Bulletin> build(const BDesc& d)
{
    if (d.crex)
    {
        auto b = CrexBulletin::create();
        b->load_tables();
        b->master_table_version_number_bufr = (uint8_t)d.h[H_MTVB];
        b->has_check_digit = d.h[H_CHECK];
        fill(*b, d);
        return std::unique_ptr<Bulletin>(b.release());
    }
    auto b = BufrBulletin::create();
    b->load_tables();
    b->compression = false;
    b->optional_section = d.optional;
    fill(*b, d);
    return std::unique_ptr<Bulletin>(b.release());
}

// Change one thing in a value, leaving the definition alone
std::string mutate_value(Gen& g, VDesc& v)
{
    if (v.set && g.chance(1, 4)) { v.set = false; return "becomes unset"; }
    if (!v.set) { value(g, v); return "becomes set"; }
    VDesc old = v;
    if (v.numeric())
    {
        if (v.info->imin == v.info->imax) { v.set = false; return "becomes unset"; }
        if (g.boolean() && v.ival < v.info->imax) ++v.ival;
        else if (v.ival > v.info->imin) --v.ival;
        else ++v.ival;
    }
    else if (v.info->type == Vartype::String)
    {
        switch (g.draw(3))
        {
            case 0: v.sval.back() = v.sval.back() == 'Z' ? 'Y' : 'Z'; break;
            case 1: { char& c = v.sval[g.draw(v.sval.size())]; c = c == 'Q' ? 'R' : 'Q'; break; }
            case 2: if (v.sval.size() < v.info->len) v.sval += 'X'; else v.sval[0] = v.sval[0] == 'A' ? 'B' : 'A'; break;
        }
    }
    else
    {
        unsigned bit = (unsigned)g.draw(v.info->bit_len);
        v.sval[bit / 8] = (char)(v.sval[bit / 8] ^ (1 << (bit % 8)));
    }
    return "changes value";
}

std::string mutate_var(Gen& g, InfoPool& pool, VDesc& v)
{
    switch (g.draw(v.attrs.empty() ? 3 : 6))
    {
        case 0: case 1: return mutate_value(g, v);
        case 2:
        {
            VDesc a = gen_var(g, pool, 1);
            a.attrs.clear();
            for (const auto& o: v.attrs) if (o.info->code == a.info->code) return mutate_value(g, v);
            v.attrs.insert(v.attrs.begin() + (long)g.draw(v.attrs.size() + 1), a);
            return "gains an attribute";
        }
        case 3: v.attrs.erase(v.attrs.begin() + (long)g.draw(v.attrs.size())); return "loses an attribute";
        case 4: return "attribute " + mutate_value(g, v.attrs[g.draw(v.attrs.size())]);
        default:
        {
            // Same number of attributes, with another code
            VDesc a = gen_var(g, pool, 1);
            a.attrs.clear();
            for (const auto& o: v.attrs) if (o.info->code == a.info->code) return mutate_value(g, v);
            v.attrs[g.draw(v.attrs.size())] = a;
            return "attribute replaced";
        }
    }
}

void check_vars(const Var& a, const Var& b, bool equal, const std::string& what)
{
    unsigned d1 = a.diff(b), d2 = b.diff(a);
    if (equal)
    {
        PBT_CHECK(d1 == 0 && d2 == 0, what << ": identical variables: diff is " << d1 << " and " << d2);
        PBT_CHECK(a == b && b == a && !(a != b) && !(b != a), what << ": identical variables: == is false");
    } else {
        PBT_CHECK(d1 && d2, what << ": different variables: diff is " << d1 << " and " << d2);
        PBT_CHECK(!(a == b) && !(b == a) && a != b && b != a, what << ": different variables: == is true");
    }
}

void run_var(Ctx& ctx)
{
    Gen& g = ctx.g;
    InfoPool pool;
    VDesc d = gen_var(g, pool);
    Var a = d.build();
    std::string what = describe(d.info) + strf(" with %zu attributes", d.attrs.size());
    check_vars(a, d.build(), true, what);
    Var copy(a);
    check_vars(a, copy, true, what + " (copy)");
    check_vars(a, a, true, what + " (self)");
    // Attributes set in another order
    if (d.attrs.size() > 1)
    {
        VDesc r = d;
        std::reverse(r.attrs.begin(), r.attrs.end());
        check_vars(a, r.build(), true, what + " (attributes set in another order)");
        ctx.label("attribute order");
    }
    VDesc m = d;
    std::string how = mutate_var(g, pool, m);
    Var b = m.build();
    check_vars(a, b, false, what + ": " + how);
    check_vars(copy, b, false, what + ": " + how);
    // value_equals ignores attributes
    bool attr = how.find("attribute") != std::string::npos;
    PBT_CHECK(a.value_equals(b) == attr && b.value_equals(a) == attr, what << ": " << how << ": value_equals");
    // Other code, same value
    if (g.chance(1, 4))
    {
        _Varinfo other(*d.info);
        other.code = (Varcode)(d.info->code ^ (1u << g.draw(14)));
        VDesc o = d;
        o.info = &other;
        Var c = o.build();
        check_vars(a, c, false, what + ": other code");
        ctx.label("other code");
    }
    // Same code, other definition: text is compared whatever its space, kinds of values do not mix
    if (d.set && g.chance(1, 2))
    {
        VDesc o;
        o.info = g.chance(1, 2) && d.info->type == Vartype::String ? pool.string(g) : g.chance(1, 2) && d.info->type == Vartype::Binary ? pool.binary(g) : pool.any(g);
        if (o.numeric() && (d.numeric() || o.info->imin > o.info->imax)) o.info = pool.string(g);
        _Varinfo other(*o.info);
        other.code = d.info->code;
        o.info = &other;
        o.attrs = d.attrs;
        value(g, o);
        bool same = false;
        if (other.type == d.info->type)
        {
            if (g.chance(3, 4)) o.sval = d.sval;
            if (other.type == Vartype::Binary)
            {
                o.sval.resize(other.len);
                if (unsigned tail = other.bit_len % 8) o.sval.back() = (char)((unsigned char)o.sval.back() & ((1 << tail) - 1));
            } else
                o.sval = o.sval.substr(0, other.len);
            same = o.sval == d.sval && (other.type == Vartype::String || other.bit_len == d.info->bit_len);
        }
        Var c = o.build();
        std::string how2 = "other definition " + describe(&other);
        check_vars(a, c, same, what + ": " + how2);
        PBT_CHECK(a.value_equals(c) == same && c.value_equals(a) == same, what << ": " << how2 << ": value_equals");
        ctx.label(same ? "other definition, same value" : "other definition, other value");
    }
    ctx.label("variable: " + how);
    ctx.nontrivial(what + how + a.format("-") + b.format("-"));
    ctx.set_sample("variable " + what + ": " + how);
}

unsigned collect(const Bulletin& a, const Bulletin& b, std::string& notes)
{
    std::ostringstream o;
    std::ostringstream sink;
    notes::set_target(o);
    unsigned res = a.diff(b);
    static std::ostringstream rest;
    rest.str("");
    notes::set_target(rest);
    notes = o.str();
    return res;
}

void run_bulletin(Ctx& ctx)
{
    Gen& g = ctx.g;
    InfoPool pool;
    BDesc d;
    d.crex = g.boolean();
    for (unsigned i = 0; i < H_COUNT; ++i) d.h[i] = (unsigned)g.draw(hmax[i] + 1);
    if (!d.crex && g.chance(1, 3)) d.optional = g.bytes(1 + g.size(20));
    unsigned n = g.size(6);
    for (unsigned i = 0; i < n; ++i) d.datadesc.push_back((Varcode)(1 + g.draw(65535)));
    n = g.size(4);
    for (unsigned i = 0; i < n; ++i)
    {
        d.subsets.push_back({});
        unsigned k = g.size(5);
        for (unsigned j = 0; j < k; ++j) d.subsets.back().push_back(gen_var(g, pool));
    }
    auto a = build(d), a2 = build(d);
    std::string what = strf("%s bulletin with %zu descriptors, %zu subsets", d.crex ? "CREX" : "BUFR", d.datadesc.size(), d.subsets.size());
    auto eq = [&](const Bulletin& x, const Bulletin& y, const std::string& how) {
        std::string n1;
        unsigned d1 = collect(x, y, n1);
        unsigned d2 = y.diff(x);
        PBT_CHECK(d1 == 0 && d2 == 0, what << ": " << how << ": diff is " << d1 << " and " << d2 << ": " << n1);
        PBT_CHECK(n1.empty(), what << ": " << how << ": no differences but notes " << quote(n1));
    };
    auto ne = [&](const Bulletin& x, const Bulletin& y, const std::string& how) {
        std::string n1, n2;
        unsigned d1 = collect(x, y, n1), d2 = collect(y, x, n2);
        PBT_CHECK(d1 && d2, what << ": " << how << ": diff is " << d1 << " and " << d2);
        PBT_CHECK(!n1.empty() && !n2.empty(), what << ": " << how << ": difference not explained in the notes");
    };
    eq(*a, *a2, "built twice");
    eq(*a, *a, "itself");
    // Not part of the content
    a2->fname = "other";
    a2->offset = 42;
    eq(*a, *a2, "other file name and offset");

    BDesc m = d;
    std::string how;
    unsigned kind = (unsigned)g.draw(10);
    if (kind >= 5 && d.subsets.empty()) kind = (unsigned)g.draw(5);
    switch (kind)
    {
        case 0: case 1: case 2:
        {
            unsigned f = (unsigned)g.draw(d.crex ? H_COUNT : H_MTVB);
            if (hmax[f] > 1 && g.boolean()) m.h[f] ^= 1u << g.draw(hmax[f] == 255 ? 8 : 16);
            else m.h[f] = (m.h[f] + 1 + (unsigned)g.draw(hmax[f])) % (hmax[f] + 1);
            how = strf("header field %s", hnames[f]);
            break;
        }
        case 3:
            if (!d.crex)
            {
                how = "optional section";
                if (m.optional.empty() || g.boolean()) m.optional += (char)g.byte();
                else if (g.boolean()) m.optional.resize(m.optional.size() - 1);
                else m.optional[g.draw(m.optional.size())] ^= (char)(1 << g.draw(8));
                break;
            }
            // fallthrough
        case 4:
            how = "data descriptors";
            if (m.datadesc.empty() || g.chance(1, 3)) m.datadesc.insert(m.datadesc.begin() + (long)g.draw(m.datadesc.size() + 1), (Varcode)(1 + g.draw(65535)));
            else if (g.boolean()) m.datadesc.erase(m.datadesc.begin() + (long)g.draw(m.datadesc.size()));
            else m.datadesc[g.draw(m.datadesc.size())] ^= (Varcode)(1 << g.draw(16));
            break;
        case 5:
        {
            how = "number of subsets";
            if (g.boolean()) m.subsets.pop_back();
            else m.subsets.insert(m.subsets.begin() + (long)g.draw(m.subsets.size() + 1), std::vector<VDesc>());
            break;
        }
        case 6:
        {
            how = "number of variables";
            auto& s = m.subsets[g.draw(m.subsets.size())];
            if (s.empty() || g.boolean()) s.insert(s.begin() + (long)g.draw(s.size() + 1), gen_var(g, pool));
            else s.erase(s.begin() + (long)g.draw(s.size()));
            break;
        }
        default:
        {
            auto& s = m.subsets[g.draw(m.subsets.size())];
            if (s.empty()) { s.push_back(gen_var(g, pool)); how = "number of variables"; break; }
            how = "variable " + mutate_var(g, pool, s[g.draw(s.size())]);
            break;
        }
    }
    auto b = build(m);
    ne(*a, *b, how);
    // Subset by subset
    if (d.subsets.size() == m.subsets.size())
    {
        unsigned total = 0;
        for (unsigned i = 0; i < d.subsets.size(); ++i)
        {
            unsigned d1 = a->subset(i).diff(b->subset(i)), d2 = b->subset(i).diff(a->subset(i));
            PBT_CHECK((d1 == 0) == (d2 == 0), what << ": " << how << ": subset diff not symmetric");
            total += d1;
        }
        bool in_data = how.compare(0, 8, "variable") == 0 || how == "number of variables";
        PBT_CHECK((total > 0) == in_data, what << ": " << how << ": subsets differ by " << total);
    }
    // Two independent changes are still different, and the other type of bulletin is too
    if (g.chance(1, 5))
    {
        BDesc o = d;
        o.crex = !d.crex;
        auto c = build(o);
        ne(*a, *c, "other encoding");
        ctx.label("other encoding");
    }
    ctx.label(strf("%s: ", d.crex ? "CREX" : "BUFR") + how);
    std::string content = what + how;
    for (unsigned i = 0; i < H_COUNT; ++i) content += strf(" %u>%u", d.h[i], m.h[i]);
    ctx.nontrivial(content);
    ctx.set_sample(what + ": " + how);
}

void run(Ctx& ctx)
{
    if (ctx.g.draw(5) < 2) run_var(ctx);
    else run_bulletin(ctx);
}

void init()
{
    init_tables();
}

pbt::Register r({"C16",
    "A case is a random variable (any definition and value, 0-4 attributes) or BUFR/CREX bulletin (random header fields, 0-5 descriptors, 0-3 subsets of 0-4 variables), built twice and copied, which must compare equal both ways, and a variation with exactly one change (one header field, optional section, descriptor, subset, variable, value, missing state or attribute), which must compare different both ways. Non-trivial: every case, distinct by content and change.",
    run, init, 150000, 4000000, true});
}
