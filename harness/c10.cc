// C10: legacy code-table conversions stay consistent over their whole domain
#include "model.h"
#include <wreport/conv.h>
#include <wreport/codetables.h>
#include <climits>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

typedef int (*fn)(int);

struct Cloud { const char* name; fn fwd; fn rev; int base; int missing; };
const Cloud clouds[] = {
    { "0500", convert_WMO0500_to_BUFR20012, convert_BUFR20012_to_WMO0500, 0, 59 },
    { "0509", convert_WMO0509_to_BUFR20012, convert_BUFR20012_to_WMO0509, 10, 60 },
    { "0515", convert_WMO0515_to_BUFR20012, convert_BUFR20012_to_WMO0515, 20, 61 },
    { "0513", convert_WMO0513_to_BUFR20012, convert_BUFR20012_to_WMO0513, 30, 62 },
};
struct Weather { const char* name; fn fwd; int max; };
const Weather weathers[] = {
    { "WMO4677 to 20003", convert_WMO4677_to_BUFR20003, 99 },
    { "20003 to WMO4677", convert_BUFR20003_to_WMO4677, 99 },
    { "WMO4561 to 20004", convert_WMO4561_to_BUFR20004, 9 },
    { "20004 to WMO4561", convert_BUFR20004_to_WMO4561, 9 },
};

// Bit numbers are counted from 1 from the left
unsigned b8001(unsigned n) { return 1u << (7 - n); }
unsigned b8042(unsigned n) { return 1u << (18 - n); }

void check_eq(fn f, int from, bool ok, int exp, const std::string& what)
{
    int got = 0;
    Err e = caught([&] { got = f(from); });
    if (ok)
        PBT_CHECK(e == E_NONE && got == exp, what << " of " << from << " gives " << got << " " << errname(e) << " expected " << exp);
    else
        PBT_CHECK(e == E_DOMAIN, what << " of " << from << ": expected a domain error, got " << errname(e) << " " << got);
}

void run(Ctx& ctx)
{
    Gen& g = ctx.g;
    unsigned kind = (unsigned)g.draw(5);
    // Small values are enumerated, large ones are random
    uint64_t idx = g.cycle(400000);
    switch (kind)
    {
        case 0: {
            int v = g.chance(1, 5) ? (int)g.edgy(INT_MIN, INT_MAX) : (int)(idx % 200) - 60;
            for (const Cloud& c: clouds)
            {
                check_eq(c.fwd, v, v >= -1 && v <= 9, v == -1 ? c.missing : v + (v >= -1 && v <= 9 ? c.base : 0), std::string("WMO") + c.name + " to 20012");
                bool in = v >= c.base && v <= c.base + 9;
                check_eq(c.rev, v, in || v == c.missing, in ? v - c.base : -1, std::string("20012 to WMO") + c.name);
                if (v >= -1 && v <= 9)
                    PBT_CHECK(c.rev(c.fwd(v)) == v, "cloud " << c.name << " " << v << " there and back");
            }
            ctx.label("clouds");
            ctx.nontrivial((uint64_t)(uint32_t)v);
            ctx.set_sample(strf("cloud type %d", v));
            break;
        }
        case 1: {
            int v = g.chance(1, 5) ? (int)g.edgy(0, INT_MAX) : (int)(idx % 600);
            for (const Weather& w: weathers)
                check_eq(w.fwd, v, v <= w.max, v, w.name);
            ctx.label("weather");
            ctx.nontrivial((uint64_t)(uint32_t)v | (1ull << 40));
            ctx.set_sample(strf("weather %d", v));
            break;
        }
        case 2: {
            unsigned v = (unsigned)(idx & 0x7f);
            unsigned exp = 0;
            if (v & b8001(7)) exp = 0x3ffff;
            else
            {
                if (v & b8001(1)) exp |= b8042(1);               // surface
                if (v & b8001(2)) exp |= b8042(2);               // standard level
                if (v & b8001(3)) exp |= b8042(3);               // tropopause
                if (v & b8001(4)) exp |= b8042(4);               // maximum wind
                if (v & b8001(5)) exp |= b8042(5) | b8042(6);    // significant temperature and humidity
                if (v & b8001(6)) exp |= b8042(7);               // significant wind
            }
            unsigned got = convert_BUFR08001_to_BUFR08042(v);
            PBT_CHECK(got == exp, "08001 " << v << " gives 08042 " << got << " expected " << exp);
            unsigned back = convert_BUFR08042_to_BUFR08001(got);
            PBT_CHECK(back == (v & 1 ? 0x7fu : v), "08001 " << v << " there and back gives " << back);
            ctx.label("08001 to 08042");
            ctx.nontrivial(v | (2ull << 40));
            ctx.set_sample(strf("08001 %u", v));
            break;
        }
        case 3: {
            unsigned v = (unsigned)(idx & 0x3ffff);
            if (g.boolean()) v = (unsigned)g.draw(0x40000);
            unsigned exp = 0;
            if (v & b8042(18)) exp = 0x7f;
            else
            {
                for (unsigned i = 1; i <= 4; ++i) if (v & b8042(i)) exp |= b8001(i);
                if (v & (b8042(5) | b8042(6))) exp |= b8001(5);
                if (v & b8042(7)) exp |= b8001(6);
            }
            unsigned got = convert_BUFR08042_to_BUFR08001(v);
            PBT_CHECK(got == exp, "08042 " << v << " gives 08001 " << got << " expected " << exp);
            // Going on to 08042 and back again changes nothing
            PBT_CHECK(convert_BUFR08042_to_BUFR08001(convert_BUFR08001_to_BUFR08042(got)) == got, "08042 " << v << " is not stable");
            ctx.label("08042 to 08001");
            ctx.nontrivial(v | (3ull << 40));
            ctx.set_sample(strf("08042 %u", v));
            break;
        }
        default: {
            unsigned v = (unsigned)(idx & 0xfff);
            unsigned exp = 0;
            if (v & 1) exp |= b8042(4);
            if (v & 2) exp |= b8042(3);
            if (v & 8) exp |= b8042(2);
            if (v & 32) exp |= b8042(2);
            if (v & 64) exp |= b8042(1);
            if (v & 128) exp |= b8042(7);
            if (v & 256) exp |= b8042(5);
            unsigned got = convert_AOFVSS_to_BUFR08042(v);
            PBT_CHECK(got == exp, "AOF VSS " << v << " gives 08042 " << got << " expected " << exp);
            // Octants
            int o = (int)(idx % 30) - 8;
            if (o < 0 || o > 8)
                PBT_CHECK(caught([&] { convert_octants_to_degrees(o); }) == E_DOMAIN, "octant " << o);
            else
            {
                PBT_CHECK(convert_octants_to_degrees(o) == o * 45, "octant " << o);
                PBT_CHECK(convert_degrees_to_octants(convert_octants_to_degrees(o)) == o, "octant " << o << " there and back");
            }
            double d = g.boolean() ? (double)(idx % 36100) / 100.0 : g.any_double();
            int got_o = -1;
            Err e = caught([&] { got_o = convert_degrees_to_octants(d); });
            if (d >= 0 && d <= 360)
            {
                // Octant n is centered on n * 45 degrees; 0 is calm and north is 8
                int exp_o = d == 0 ? 0 : (int)ceil((d - 22.5) / 45.0);
                if (d != 0 && exp_o <= 0) exp_o = 8;
                PBT_CHECK(e == E_NONE && got_o == exp_o, strf("%.17g", d) << " degrees: octant " << got_o << " expected " << exp_o);
            } else
                PBT_CHECK(e == E_DOMAIN, d << " degrees: expected a domain error, got " << errname(e));
            ctx.label("AOF and octants");
            ctx.nontrivial(hash_bytes(&d, 8) ^ v);
            ctx.set_sample(strf("AOF %u, %g degrees", v, d));
            break;
        }
    }
}

void init()
{
    // Named constants against the code tables: bit n from the left
    using namespace wreport;
    struct { unsigned val, bit; } c1[] = { { BUFR08001::SURFACE, 1 }, { BUFR08001::STD, 2 }, { BUFR08001::TROPO, 3 }, { BUFR08001::MAXWIND, 4 }, { BUFR08001::SIGTH, 5 }, { BUFR08001::SIGWIND, 6 }, { BUFR08001::MISSING, 7 } };
    for (const auto& c: c1) PBT_CHECK(c.val == b8001(c.bit), "08001 constant for bit " << c.bit);
    struct { unsigned val, bit; } c2[] = { { BUFR08042::SURFACE, 1 }, { BUFR08042::STD, 2 }, { BUFR08042::TROPO, 3 }, { BUFR08042::MAXWIND, 4 }, { BUFR08042::SIGTEMP, 5 }, { BUFR08042::SIGHUM, 6 }, { BUFR08042::SIGWIND, 7 },
        { BUFR08042::BEGMISST, 8 }, { BUFR08042::ENDMISST, 9 }, { BUFR08042::BEGMISSH, 10 }, { BUFR08042::ENDMISSH, 11 }, { BUFR08042::BEGMISSW, 12 }, { BUFR08042::ENDMISSW, 13 }, { BUFR08042::TOPWIND, 14 }, { BUFR08042::REGIONAL, 15 }, { BUFR08042::RESERVED, 16 }, { BUFR08042::H2PRESS, 17 }, { BUFR08042::MISSING, 18 } };
    for (const auto& c: c2) PBT_CHECK(c.val == b8042(c.bit), "08042 constant for bit " << c.bit);
    PBT_CHECK(BUFR08001::ALL_MISSING == 0x7f && BUFR08042::ALL_MISSING == 0x3ffff, "all missing constants");
}

pbt::Register r({"C10",
    "A case is one code (all small codes and all 7/18 bit flag combinations in turn, plus random integers) or angle, converted by every function of its family and compared with tables rewritten from the code-table documentation, then composed with the inverse function. Non-trivial: every decided code, distinct by code.",
    run, init, 3000000, 30000000, true});
}
