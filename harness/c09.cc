// C09: unit conversions are exact inverses with the right physical factors
#include "model.h"
#include <wreport/conv.h>
#include <cfloat>
#include <set>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

// from, to: to = from * mul + add; tol is the relative precision of the factor
struct Ref { const char* from; const char* to; double mul; double add; double tol; bool both; };
const Ref refs[] = {
    { "K", "C", 1, -273.15, 1e-7, true },
    { "K", "C/10", 10, -2731.5, 1e-7, true },
    { "C", "C/10", 10, 0, 0, true },
    { "minuti", "S", 60, 0, 0, true },
    { "MINUTE", "S", 60, 0, 0, true },
    { "G/M**3", "KG/M**3", 1e-3, 0, 0, true },
    { "ug/m**3", "KG/M**3", 1e-9, 0, 0, true },
    { "mg/l", "KG/M**3", 1e-3, 0, 0, true },
    { "PA", "KPA", 1e-3, 0, 0, true },
    { "M", "MM", 1000, 0, 0, true },
    { "M", "mm", 1000, 0, 0, true },
    { "M", "cm", 100, 0, 0, true },
    { "M", "KM", 1e-3, 0, 0, true },
    { "M", "hm", 1e-2, 0, 0, true },
    { "%", "PERCENT", 1, 0, 0, true },
    { "FT", "M", 0.3048, 0, 2e-5, true },
    { "cal/cm**2", "J/M**2", 41868, 0, 3e-5, true },
    { "J/M**2", "MJ/M**2", 1e-6, 0, 0, true },
    { "Mj/m**2", "J/M**2", 1e6, 0, 0, true },
    { "m/s/10", "M/S", 0.1, 0, 0, true },
    { "nodi", "M/S", 1852.0 / 3600.0, 0, 2e-5, true },
    { "mBar", "PA", 100, 0, 0, true },
    { "hPa", "PA", 100, 0, 0, true },
    { "Bar", "PA", 100000, 0, 0, true },
    { "NBAR", "PA", 1e-4, 0, 0, true },
    { "mV", "V", 1e-3, 0, 0, true },
    { "1/8", "%", 12.5, 0, 0, true },
    { "mm/10", "KG/M**2", 0.1, 0, 0, true },
    { "GPM", "m**2/s**2", 9.80665, 0, 1e-8, true },
    { "GPM", "M**2/S**2", 9.80665, 0, 1e-8, true },
    { "MGP", "m**2/s**2", 9.80665, 0, 1e-8, true },
    { "MGP", "M**2/S**2", 9.80665, 0, 1e-8, true },
    { "cal/s/cm**2", "W/M**2", 41868, 0, 1e-5, true },
    { "cal/h/cm**2", "W/M**2", 11.63, 0, 1e-5, true },
    { "RATIO", "%", 100, 0, 0, true },
    { "ms/cm", "S/M", 0.1, 0, 0, true },
    { "mS/cm", "S/M", 0.1, 0, 0, true },
    { "A", "YEAR", 1, 0, 0, true }, { "YEARS", "YEAR", 1, 0, 0, true },
    { "MON", "MONTH", 1, 0, 0, true }, { "MONTHS", "MONTH", 1, 0, 0, true },
    { "D", "DAY", 1, 0, 0, true }, { "DAYS", "DAY", 1, 0, 0, true },
    { "H", "HOUR", 1, 0, 0, true }, { "HOURS", "HOUR", 1, 0, 0, true },
    { "MIN", "MINUTE", 1, 0, 0, true }, { "MINUTES", "MINUTE", 1, 0, 0, true },
    { "SECONDS", "SECOND", 1, 0, 0, true }, { "SECOND", "S", 1, 0, 0, true }, { "sec", "S", 1, 0, 0, true },
    { "G/G", "KG/KG", 1, 0, 0, true }, { "m**(2/3)/S", "M**(2/3)/S", 1, 0, 0, true },
    { "DEGREE**2", "DEGREE2", 1, 0, 0, true }, { "KG/M**2", "KGM-2", 1, 0, 0, true }, { "KG/M**2", "KG M-2", 1, 0, 0, true },
    { "J/M**2", "JM-2", 1, 0, 0, true }, { "Bq/L", "BQ L-1", 1, 0, 0, true }, { "DOBSON", "DU", 1, 0, 0, true },
    { "LOG(1/M**2)", "LOG (M-2)", 1, 0, 0, true }, { "DEGREE", "DEG", 1, 0, 0, true }, { "DEGREE TRUE", "DEG", 1, 0, 0, true },
    { "DEGREE TRUE", "gsess", 1, 0, 0, true }, { "m/sec", "M/S", 1, 0, 0, true }, { "m", "M", 1, 0, 0, true },
    { "mm", "KG/M**2", 1, 0, 0, true }, { "degree true", "DEGREE TRUE", 1, 0, 0, true }, { "GPM", "MGP", 1, 0, 0, true },
    { "W/m**2", "W/M**2", 1, 0, 0, true }, { "J M-2", "J/M**2", 1, 0, 0, true }, { "ppt", "PART PER THOUSAND", 1, 0, 0, true },
    { "NTU", "LM", 1, 0, 0, true },
};
const size_t NREF = sizeof(refs) / sizeof(refs[0]);

std::vector<std::string> units;
std::map<std::pair<std::string, std::string>, std::pair<const Ref*, bool>> pairs;

void init()
{
    init_tables();
    std::set<std::string> s;
    for (const Ref& r: refs)
    {
        s.insert(r.from);
        s.insert(r.to);
        pairs[std::make_pair(r.from, r.to)] = std::make_pair(&r, false);
        pairs[std::make_pair(r.to, r.from)] = std::make_pair(&r, true);
    }
    s.insert("octants");
    for (const char* u: { "", "k", "c", "KELVIN", "NUMERIC", "CODE TABLE", "CCITTIA5", "UNKNOWN", "K ", " K", "mM", "pa", "Pa", "HPA", "SIEMENS", "FLAG TABLE", "km" })
        s.insert(u);
    units.assign(s.begin(), s.end());
}

double gen_val(Gen& g)
{
    switch (g.draw(6))
    {
        case 0: return (double)g.range(-1000, 1000);
        case 1: return (double)g.range(-1000000, 1000000) / 1000.0;
        case 2: return (double)g.edgy(-2147483648ll, 2147483647);
        case 3: return (g.boolean() ? 1 : -1) * std::pow(10.0, (double)g.range(-30, 30)) * ((double)g.range(1, 1000) / 100);
        case 4: return 0;
        default: {
            double d = g.any_double();
            return std::isfinite(d) && fabs(d) < 1e250 && (d == 0 || fabs(d) > 1e-250) ? d : 1.5;
        }
    }
}

// One conversion against the reference; the tolerance grows with the magnitude
void check_one(const std::string& from, const std::string& to, double val, const std::string& what)
{
    auto i = pairs.find(std::make_pair(from, to));
    const Ref& r = *i->second.first;
    long double exp, slack;
    if (!i->second.second)
    {
        exp = (long double)val * r.mul + r.add;
        slack = fabsl((long double)val * r.mul) * (r.tol + 4e-16L) + fabsl(r.add) * (r.tol + 4e-16L);
    } else {
        exp = ((long double)val - r.add) / r.mul;
        slack = (fabsl((long double)val) + fabsl(r.add)) / r.mul * (r.tol + 4e-16L);
    }
    slack += 1e-300L;
    double got = convert_units(from.c_str(), to.c_str(), val);
    PBT_CHECK(fabsl(got - exp) <= slack, what << ": got " << strf("%.17g", got) << " expected " << strf("%.17g", (double)exp));
    if (r.mul == 1 && r.add == 0)
        PBT_CHECK(got == val, what << ": equivalent units change the value");
    // And back
    double back = convert_units(to.c_str(), from.c_str(), got);
    long double tol = fabsl(val) * (2.5L * r.tol + 1e-14L) + fabsl(r.add) * (2 * r.tol + 1e-14L) / (i->second.second ? 1 : r.mul) + 1e-290L;
    PBT_CHECK(fabsl((long double)back - val) <= tol, what << ": there and back gives " << strf("%.17g", back));
}

void run(Ctx& ctx)
{
    Gen& g = ctx.g;
    double val = gen_val(g);
    switch (g.draw(8))
    {
        case 0: {
            // Same unit, whatever it is
            std::string u = g.boolean() ? g.pick(units) : g.ascii(g.size(20));
            double v = g.any_double();
            double got = convert_units(u.c_str(), std::string(u).c_str(), v);
            PBT_CHECK(memcmp(&got, &v, 8) == 0, "identity of " << quote(u) << " on " << v);
            ctx.label("identity");
            ctx.nontrivial(hash_str(u) ^ hash_bytes(&v, 8));
            ctx.set_sample("identity " + quote(u));
            break;
        }
        case 1: {
            // Any pair: known ones convert, unknown ones fail
            std::string a, b;
            a = g.pick(units);
            b = g.pick(units);
            if (g.chance(1, 4)) { a = g.ascii(g.size(8)); }
            if (g.chance(1, 4)) { b = b + g.ascii(1); }
            if (a == b) { ctx.label("identity"); return; }
            bool oct = (a == "octants" && b == "DEGREE TRUE") || (a == "DEGREE TRUE" && b == "octants");
            if (oct) return;
            std::string what = "convert " + quote(a) + " to " + quote(b) + strf(" %.17g", val);
            auto i = pairs.find(std::make_pair(a, b));
            if (i != pairs.end())
            {
                check_one(a, b, val, what);
                ctx.label("known pair");
            } else {
                Err e = caught([&] { convert_units(a.c_str(), b.c_str(), val); });
                PBT_CHECK(e == E_UNIMPL, what << ": expected error_unimplemented, got " << errname(e));
                ctx.label("unknown pair");
            }
            ctx.nontrivial(what);
            ctx.set_sample(what);
            break;
        }
        case 2: {
            // Octants
            if (g.boolean())
            {
                int o = (int)g.range(-3, 12);
                if (o < 0 || o > 8)
                    PBT_CHECK(caught([&] { convert_units("octants", "DEGREE TRUE", o); }) == E_DOMAIN, "octant " << o << " accepted");
                else
                {
                    double d = convert_units("octants", "DEGREE TRUE", o);
                    PBT_CHECK(d == o * 45.0, "octant " << o << " is " << d);
                    PBT_CHECK(convert_units("DEGREE TRUE", "octants", d) == o, "octant " << o << " back from " << d);
                }
                ctx.nontrivial((uint64_t)o + 100);
            } else {
                double d = g.boolean() ? (double)g.range(-4000, 40000) / 100 : g.any_double();
                Err e = caught([&] { convert_units("octants", "DEGREE TRUE", d); });
                if (!(d > -1 && d < 9)) PBT_CHECK(e == E_DOMAIN, "octants " << d << ": " << errname(e));
                if (d == (int)std::max(-1.0, std::min(9.0, d)) && d >= 0 && d <= 8) PBT_CHECK(e == E_NONE, "octants " << d);
                e = caught([&] {
                    double o = convert_units("DEGREE TRUE", "octants", d);
                    PBT_CHECK(o >= 0 && o <= 8 && o == (int)o, "degrees " << d << " are octant " << o);
                    double dist = fmod(fabs(o * 45 - d), 360);
                    dist = std::min(dist, 360 - dist);
                    PBT_CHECK(dist <= 22.5, "degrees " << d << " are octant " << o);
                    PBT_CHECK((d == 0) == (o == 0), "degrees " << d << " are octant " << o);
                });
                if (d >= 0 && d <= 360) PBT_CHECK(e == E_NONE, "degrees " << d << ": " << errname(e));
                else PBT_CHECK(e == E_DOMAIN, "degrees " << d << ": expected a domain error, got " << errname(e));
                ctx.nontrivial(hash_bytes(&d, 8));
            }
            ctx.label("octants");
            break;
        }
        case 3: {
            // ICAO standard atmosphere
            double h1 = (double)g.range(-500000, 8000000) / 100.0, h2 = h1 + (double)g.range(1, 100000) / 100.0;
            if (g.chance(1, 4)) { h1 = 11000 - (double)g.range(0, 100) / 10; h2 = 11000 + (double)g.range(1, 100) / 10; }
            double p1 = convert_icao_to_press(h1), p2 = convert_icao_to_press(h2);
            std::string what = strf("icao %.2f -> %.10g, %.2f -> %.10g", h1, p1, h2, p2);
            PBT_CHECK(p1 > p2 && p2 > 0, what << ": not decreasing");
            // Continuous: hydrostatic decrease is at most 13% per kilometer in this range
            PBT_CHECK((p1 - p2) / p1 <= (h2 - h1) * 0.00020 + 1e-4, what << ": jumps");
            if (h1 >= -1000 && h1 <= 20000)
            {
                double ref = h1 <= 11000 ? 1013.25 * pow(1 - 0.0065 * h1 / 288.15, 5.25588) : 226.32 * exp(-9.80665 * (h1 - 11000) / (287.053 * 216.65));
                PBT_CHECK(fabs(p1 - ref) <= ref * 0.003, what << ": standard atmosphere is " << ref);
            }
            PBT_CHECK(convert_icao_to_press(0) == 1013.25, "sea level pressure");
            PBT_CHECK(caught([&] { convert_press_to_icao(p1); }) == E_UNIMPL, "press to icao");
            ctx.label("icao");
            ctx.nontrivial(what);
            ctx.set_sample(what);
            break;
        }
        case 4: {
            // Through an intermediate unit
            size_t i = g.draw(NREF), j = g.draw(NREF);
            for (size_t n = 0; n < NREF; ++n)
            {
                const Ref& a = refs[i];
                const Ref& b = refs[(j + n) % NREF];
                for (unsigned dir = 0; dir < 4; ++dir)
                {
                    std::string x = dir & 1 ? a.to : a.from, y = dir & 1 ? a.from : a.to;
                    std::string y2 = dir & 2 ? b.to : b.from, z = dir & 2 ? b.from : b.to;
                    if (y != y2 || x == z) continue;
                    auto d = pairs.find(std::make_pair(x, z));
                    if (d == pairs.end()) continue;
                    double direct = convert_units(x.c_str(), z.c_str(), val);
                    double via = convert_units(y.c_str(), z.c_str(), convert_units(x.c_str(), y.c_str(), val));
                    long double mag = fabsl(direct) + fabsl(d->second.first->add) + fabsl(convert_units(x.c_str(), z.c_str(), 0));
                    PBT_CHECK(fabsl((long double)direct - via) <= mag * 1e-7L + (fabsl(a.add) + fabsl(b.add)) * 1e-13L + 1e-290L, "convert " << x << " to " << z << " via " << y << ": " << via << " instead of " << direct);
                    ctx.label("via");
                    ctx.nontrivial(hash_str(x + "|" + y + "|" + z) ^ hash_bytes(&val, 8));
                    ctx.set_sample("via " + x + " " + y + " " + z + strf(" %g; ", val));
                    return;
                }
            }
            break;
        }
        default: {
            // Each known pair in turn
            const Ref& r = refs[g.cycle(NREF)];
            bool rev = g.boolean();
            std::string from = rev ? r.to : r.from, to = rev ? r.from : r.to;
            std::string what = "convert " + quote(from) + " to " + quote(to) + strf(" %.17g", val);
            check_one(from, to, val, what);
            ctx.label("known pair");
            ctx.nontrivial(what);
            ctx.set_sample(what);
            // Through variables
            InfoPool pool;
            _Varinfo* a = pool.add();
            _Varinfo* b = pool.add();
            int sa = (int)g.range(0, 4), sb = (int)g.range(0, 4);
            a->set_crex(fxy(0, 1, 1), "A", from.c_str(), sa, 12);
            b->set_crex(fxy(0, 1, 2), "B", to.c_str(), sb, 12);
            if (a->type != Vartype::Integer && a->type != Vartype::Decimal) return;
            int64_t raw = g.range(-100000, 100000);
            Var va(a, (int)raw);
            double exp = convert_units(from.c_str(), to.c_str(), va.enqd());
            Var vb(b);
            if (fabs(exp) * pow(10, sb) < 2e9)
            {
                vb.setval(va);
                PBT_CHECK(vb.isset() && fabs(vb.enqd() - exp) <= 0.5001 * pow(10, -sb) + fabs(exp) * 1e-12, what << ": through variables " << va.enqd() << " gives " << vb.enqd() << " instead of " << exp);
                Var vc(b, va);
                PBT_CHECK(vc.value_equals(vb), what << ": converting constructor differs");
            }
            break;
        }
    }
}

pbt::Register r({"C09",
    "A case is an ordered pair of unit names (all known pairs in turn, random pairs, unknown names), a value, and a check: against an independent table of physical factors, there and back, through an intermediate unit, through variables, octants, standard atmosphere. Non-trivial: every conversion or refusal decided by the reference, distinct by units and value.",
    run, init, 1500000, 50000000, true});
}
