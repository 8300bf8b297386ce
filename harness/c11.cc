// C11: Varinfo ranges and encode/decode functions are mutually consistent
#include "model.h"
#include <cfloat>
#include <climits>

using namespace wreport;
using namespace pbt;
using namespace model;

static bool close_to(double a, long double b)
{
    if ((long double)a == b) return true;
    return fabsl((long double)a - b) <= fabsl(b) * 8 * (long double)DBL_EPSILON;
}

static void check_info(Ctx& ctx, Varinfo i, bool ranges)
{
    Gen& g = ctx.g;
    if (i->type == Vartype::String || i->type == Vartype::Binary)
    {
        PBT_CHECK(i->imin == 0 && i->imax == 0, describe(i));
        return;
    }
    PBT_CHECK((i->type == Vartype::Integer) == (i->scale == 0), describe(i));
    int64_t imin, imax;
    model::range(X(i->code), i->len, i->bit_ref, i->bit_len, imin, imax);
    if (ranges)
    {
        if (imin <= imax)
            PBT_CHECK(i->imin == imin && i->imax == imax, describe(i) << " expected [" << imin << "," << imax << "]");
        else
        {
            PBT_CHECK(i->imin > i->imax, describe(i) << " should have an empty range");
            ctx.label("empty range");
            return;
        }
    }
    if (imin > imax) return;
    PBT_CHECK(close_to(i->dmin, scaled(i->imin, i->scale)), describe(i) << " dmin " << i->dmin);
    PBT_CHECK(close_to(i->dmax, scaled(i->imax, i->scale)), describe(i) << " dmax " << i->dmax);

    // Raw values in range
    int64_t prev = 0;
    double prevd = 0;
    bool have = false;
    for (unsigned n = 0; n < 6; ++n)
    {
        int64_t raw = n == 0 ? imin : n == 1 ? imax : g.edgy(imin, imax);
        double d = i->decode_decimal((int)raw);
        PBT_CHECK(close_to(d, scaled(raw, i->scale)), describe(i) << " decode_decimal(" << raw << ") = " << d);
        PBT_CHECK(d >= i->dmin && d <= i->dmax, describe(i) << " raw " << raw << " decodes to " << d << " outside of " << i->dmin << ".." << i->dmax);
        PBT_CHECK(i->encode_decimal(d) == (int)raw, describe(i) << " encode_decimal(decode_decimal(" << raw << ")) = " << i->encode_decimal(d));
        PBT_CHECK(close_to(i->round_decimal(d), scaled(raw, i->scale)), describe(i) << " round_decimal(" << d << ")=" << i->round_decimal(d));
        if (have)
        {
            PBT_CHECK((prev < raw) == (prevd < d) && (prev > raw) == (prevd > d), describe(i) << " not order preserving: " << prev << "," << raw);
        }
        prev = raw; prevd = d; have = true;

        // Nearest raw value of a value in between
        double frac = ((double)g.range(-499, 499)) / 1000.0;
        if (raw + frac >= imin && raw + frac <= imax && std::abs(raw) < 1000000000)
        {
            double between = (double)(((long double)raw + frac) * scaled(1, i->scale));
            if (std::fabs(frac) < 0.49)
            {
                PBT_CHECK(i->encode_decimal(between) == (int)raw, describe(i) << " encode_decimal(" << strf("%.17g", between) << ") = " << i->encode_decimal(between) << " instead of " << raw);
                PBT_CHECK(close_to(i->round_decimal(between), scaled(raw, i->scale)), describe(i) << " round_decimal(" << strf("%.17g", between) << ")");
            }
        }

        if (i->bit_len)
        {
            int64_t enc = raw - i->bit_ref;
            int64_t top = ((int64_t)1 << std::min(i->bit_len, 32u)) - 1 - (X(i->code) == 31 ? 0 : 1);
            if (enc >= 0 && enc <= top)
            {
                uint32_t e = i->encode_binary(d);
                PBT_CHECK((int64_t)e == enc, describe(i) << " encode_binary(" << d << ") = " << e << " instead of " << enc);
                PBT_CHECK(i->bit_len >= 32 || (e >> i->bit_len) == 0, describe(i) << " encoded value does not fit");
                double back = i->decode_binary(e);
                PBT_CHECK(close_to(back, scaled(raw, i->scale)), describe(i) << " decode_binary(encode_binary(" << d << ")) = " << back);
                PBT_CHECK(i->encode_decimal(back) == (int)raw, describe(i) << " decimal and binary disagree on " << raw);
                ctx.label("binary round trip");
            } else {
                // Cannot be represented: it must not be encoded as something else
                Err err = caught([&] { i->encode_binary(d); });
                PBT_CHECK(err != E_NONE, describe(i) << " encode_binary(" << d << ") does not fail, and needs " << enc << " in " << i->bit_len << " bits");
                ctx.label("binary does not fit");
            }
        } else {
            PBT_CHECK(caught([&] { i->encode_binary(d); }) == E_CONSISTENCY, describe(i));
            PBT_CHECK(caught([&] { i->decode_binary(1); }) == E_CONSISTENCY, describe(i));
        }
        ctx.nontrivial(hash_str(describe(i)) ^ (uint64_t)raw);
    }

    // Any pattern of bits decodes to its value, and values just outside of the field are refused
    if (i->bit_len)
    {
        int64_t all = ((int64_t)1 << std::min(i->bit_len, 32u)) - 1;
        int64_t bits = g.edgy(0, all);
        double d = i->decode_binary((uint32_t)bits);
        PBT_CHECK(close_to(d, scaled(bits + i->bit_ref, i->scale)), describe(i) << " decode_binary(" << bits << ") = " << d);
        int64_t top = all - (X(i->code) == 31 ? 0 : 1);
        if (bits <= top) PBT_CHECK(i->encode_binary(d) == (uint32_t)bits, describe(i) << " encode_binary(decode_binary(" << bits << "))");
        for (int64_t out: { (int64_t)-1, -(int64_t)g.range(1, 5000), all + 1, all + g.range(1, 5000) })
        {
            double v = (double)scaled(out + i->bit_ref, i->scale);
            PBT_CHECK(caught([&] { i->encode_binary(v); }) != E_NONE, describe(i) << " encode_binary(" << v << ") accepted, it would be " << out);
        }
    }
}

static void run(Ctx& ctx)
{
    Gen& g = ctx.g;
    InfoPool pool;
    Varinfo i;
    switch (g.draw(6))
    {
        case 0: {
            i = pool.shipped(g);
            ctx.label("shipped");
            check_info(ctx, i, true);
            break;
        }
        case 1: {
            // Strings, binaries, descriptions
            _Varinfo* vi = pool.add();
            Varcode code = (Varcode)g.draw(65536);
            std::string desc = g.ascii(g.chance(1, 3) ? (size_t)g.range(60, 70) : g.size(40));
            unsigned len = (unsigned)g.range(1, 300);
            if (g.boolean())
            {
                vi->set_string(code, desc.c_str(), len);
                PBT_CHECK(vi->type == Vartype::String && vi->len == len && vi->bit_len == len * 8 && vi->bit_ref == 0 && vi->scale == 0, describe(vi));
            } else {
                vi->set_binary(code, desc.c_str(), len);
                PBT_CHECK(vi->type == Vartype::Binary && vi->bit_len == len && vi->len == (len + 7) / 8, describe(vi));
            }
            PBT_CHECK(vi->code == code, describe(vi));
            PBT_CHECK(strnlen(vi->desc, 64) < 64 && std::string(vi->desc) == desc.substr(0, 63), "description " << quote(desc));
            check_info(ctx, vi, true);
            ctx.label("string or binary");
            i = vi;
            ctx.nontrivial(describe(vi) + desc);
            break;
        }
        case 2: {
            // Type and text fields
            _Varinfo* vi = pool.add();
            static const char* units[] = { "CCITTIA5", "CHARACTER", "CCITTIA", "CCITTIA5X", "CHAR", "CHARACTERS", "Character", "CCITT IA5", "K", "CODE TABLE", "THIS UNIT IS LONGER THAN THE FIELD" };
            std::string unit = g.pick(units);
            std::string desc = g.ascii(g.chance(1, 3) ? (size_t)g.range(60, 70) : g.size(40));
            int scale = (int)g.range(-5, 5);
            unsigned len = (unsigned)g.range(1, 9);
            bool crex = g.boolean();
            unsigned bits = (unsigned)g.range(1, 32);
            int ref = (int)g.range(-1000, 1000);
            Varcode code = (Varcode)g.draw(65536);
            if (crex) vi->set_crex(code, desc.c_str(), unit.c_str(), scale, len);
            else vi->set_bufr(code, desc.c_str(), unit.c_str(), scale, len, ref, (int)bits);
            Vartype exp = unit == (crex ? "CHARACTER" : "CCITTIA5") ? Vartype::String : scale ? Vartype::Decimal : Vartype::Integer;
            PBT_CHECK(vi->type == exp, describe(vi) << " expected type " << vartype_format(exp));
            PBT_CHECK(vi->code == code && vi->scale == scale && vi->len == len, describe(vi));
            PBT_CHECK(crex ? vi->bit_len == 0 : vi->bit_len == bits && vi->bit_ref == ref, describe(vi));
            PBT_CHECK(std::string(vi->desc) == desc.substr(0, 63), quote(vi->desc));
            PBT_CHECK(std::string(vi->unit) == unit.substr(0, 23), quote(vi->unit));
            PBT_CHECK(vartype_parse(vartype_format(vi->type)) == vi->type, "type name");
            check_info(ctx, vi, true);
            ctx.label("type rules");
            i = vi;
            break;
        }
        default:
            i = pool.numeric(g);
            ctx.label("synthetic");
            check_info(ctx, i, true);
            break;
    }
    ctx.set_sample(describe(i));
}

static pbt::Register r({"C11",
    "A case is one variable definition (shipped table entry or synthetic: any scale, width up to 32 bits, reference, digits, unit, text) with 6 raw values from its range, a bit pattern and out-of-field values; ranges, encode/decode and types are compared with integer/long double arithmetic. Non-trivial: a numeric definition with a non-empty range whose raw values were encoded and decoded, distinct by definition and value.",
    run, init_tables, 1500000, 60000000, false});
