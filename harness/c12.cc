// C12: loading a table B returns exactly the entries in the file
#include "model.h"
#include <climits>
#include <cstdio>
#include <unistd.h>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

struct Loaded { std::string name; BTable model; const Vartable* bufr; const Vartable* crex; };
std::vector<Loaded> shipped;

void check_entry(Varinfo i, const BEntry& e, bool crex, const std::string& what)
{
    PBT_CHECK(i->code == e.code, what << ": code " << codestr(i->code));
    PBT_CHECK(e.desc == i->desc, what << ": description " << quote(i->desc) << " expected " << quote(e.desc));
    const std::string& unit = crex ? e.cunit : e.unit;
    PBT_CHECK(unit == i->unit, what << ": unit " << quote(i->unit) << " expected " << quote(unit));
    int scale = crex ? e.cscale : e.scale;
    PBT_CHECK(i->scale == scale, what << ": scale " << i->scale << " expected " << scale);
    bool str = crex ? unit == "CHARACTER" : unit == "CCITTIA5";
    Vartype type = str ? Vartype::String : scale ? Vartype::Decimal : Vartype::Integer;
    PBT_CHECK(i->type == type, what << ": type " << vartype_format(i->type));
    int ref = crex ? 0 : e.ref;
    unsigned bits = crex ? 0 : e.bits;
    PBT_CHECK(i->bit_ref == ref, what << ": bit_ref " << i->bit_ref << " expected " << ref);
    PBT_CHECK(i->bit_len == bits, what << ": bit_len " << i->bit_len << " expected " << bits);
    unsigned len = crex ? e.clen : str ? bits / 8 : digits(bits);
    PBT_CHECK(i->len == len, what << ": len " << i->len << " expected " << len);
    if (!str && (crex || bits <= 32))
    {
        int64_t imin, imax;
        model::range(X(e.code), len, ref, bits, imin, imax);
        PBT_CHECK(i->imin == imin && i->imax == imax, what << ": range " << i->imin << "," << i->imax << " expected " << imin << "," << imax);
    }
}

void check_all(const Vartable* t, const BTable& m, bool crex, const std::string& what)
{
    std::vector<Varcode> seen;
    t->iterate([&](Varinfo i) {
        if (!seen.empty() && seen.back() == i->code) return true; // alterations
        seen.push_back(i->code);
        return true;
    });
    std::vector<Varcode> exp;
    for (const auto& e: m)
    {
        if (crex && !e.second.has_crex) continue;
        exp.push_back(e.first);
        check_entry(t->query(e.first), e.second, crex, what + " " + codestr(e.first));
        PBT_CHECK(t->contains(e.first), what << " contains " << codestr(e.first));
    }
    PBT_CHECK(seen == exp, what << ": iteration returns " << seen.size() << " codes, expected " << exp.size());
    // Stopping the iteration
    unsigned count = 0;
    bool all = t->iterate([&](Varinfo) { return ++count < 2; });
    if (exp.size() > 1) PBT_CHECK(!all && count == 2, what << ": iteration does not stop");
}

std::string field(const std::string& s, size_t n) { std::string r = s.substr(0, n); r.resize(n, ' '); return r; }

// A line of a table file for the entry
std::string line(Gen& g, const BEntry& e, bool crex)
{
    bool spaced_minus = g.chance(1, 10);
    auto number = [&](long v, unsigned w) {
        std::string s = std::to_string(v);
        if (spaced_minus && v < 0 && s.size() < w) s = "- " + s.substr(1);
        return std::string(w > s.size() ? w - s.size() : 0, ' ') + s;
    };
    std::string res = strf(" 0%02u%03u ", X(e.code), Y(e.code));
    res += field(e.desc, 64) + " " + field(e.unit, 24) + " ";
    res += number(e.scale, 3) + " " + number(e.ref, 12) + " " + number(e.bits, 3);
    if (crex) res += " " + field(e.cunit, 24) + number(e.cscale, 3) + "   " + number(e.clen, 9);
    else if (g.boolean()) res += std::string(1 + g.draw(20), ' ');
    if (res.size() < 118) res.resize(118, ' ');
    return res + "\n";
}

unsigned long serial = 0;

void write_file(const std::string& path, const std::string& data)
{
    FILE* f = fopen(path.c_str(), "w");
    if (!f) throw Discard("cannot write");
    fwrite(data.data(), 1, data.size(), f);
    fclose(f);
}

struct Alt { int scale; unsigned bits; int ref; Varinfo res; _Varinfo copy; };

bool same_info(const _Varinfo& a, const _Varinfo& b)
{
    return a.code == b.code && a.type == b.type && !strcmp(a.desc, b.desc) && !strcmp(a.unit, b.unit) && a.scale == b.scale
        && a.len == b.len && a.bit_ref == b.bit_ref && a.bit_len == b.bit_len && a.imin == b.imin && a.imax == b.imax
        && a.dmin == b.dmin && a.dmax == b.dmax;
}

void alterations(Ctx& ctx, const Vartable* t, const std::vector<Varcode>& codes, std::string what)
{
    Gen& g = ctx.g;
    std::map<Varcode, std::vector<Alt>> known;
    std::map<Varcode, _Varinfo> bases;
    unsigned n = g.size(12);
    unsigned used = 0;
    for (unsigned s = 0; s < n && !g.exhausted(); ++s)
    {
        Varcode code = codes[g.draw(std::min<size_t>(codes.size(), 4))];
        Varinfo base = t->query(code);
        if (!bases.count(code)) bases[code] = *base;
        auto& alts = known[code];
        Alt a;
        if (!alts.empty() && g.chance(1, 3))
        {
            const Alt& old = g.pick(alts);
            a.scale = old.scale; a.bits = old.bits; a.ref = old.ref;
        } else {
            a.scale = g.boolean() ? base->scale : (int)g.range(-18, 18);
            a.bits = g.boolean() ? base->bit_len : base->type == Vartype::String ? 8 * (unsigned)g.range(1, 40) : (unsigned)g.range(0, 36);
            a.ref = g.boolean() ? base->bit_ref : (int)g.edgy(-1000000, 1000000);
        }
        std::string w = what + strf("; query_altered(%s, scale %d, bits %u, ref %d)", codestr(code).c_str(), a.scale, a.bits, a.ref);
        what = w;
        Varinfo res = nullptr;
        std::string msg;
        Err e = caught([&] { res = t->query_altered(code, a.scale, a.bits, a.ref); }, &msg);
        bool numeric = base->type == Vartype::Integer || base->type == Vartype::Decimal;
        bool same = a.scale == base->scale && a.bits == base->bit_len && a.ref == base->bit_ref;
        if (same)
        {
            PBT_CHECK(e == E_NONE && res == base, w << ": asking for no change does not return the base entry");
            continue;
        }
        if (numeric && (a.scale < -16 || a.scale > 16 || a.bits > 32 || a.bits == 0))
        {
            PBT_CHECK(e == E_CONSISTENCY, w << ": expected error_consistency, got " << errname(e));
            PBT_CHECK(same_info(*base, bases[code]), w << ": base entry changed");
            continue;
        }
        PBT_CHECK(e == E_NONE, w << ": " << errname(e) << " " << msg);
        ++used;
        PBT_CHECK(res->code == code && !strcmp(res->desc, base->desc) && !strcmp(res->unit, base->unit), w << ": code, unit or description changed");
        PBT_CHECK(res->scale == a.scale && res->bit_len == a.bits && res->bit_ref == a.ref, w << ": gives " << describe(res));
        if (numeric)
        {
            PBT_CHECK(res->type == (a.scale ? Vartype::Decimal : Vartype::Integer), w << ": type " << vartype_format(res->type));
            PBT_CHECK(res->len == digits(a.bits), w << ": len " << res->len);
            int64_t imin, imax;
            model::range(X(code), res->len, a.ref, a.bits, imin, imax);
            PBT_CHECK(res->imin == imin && res->imax == imax, w << ": range of " << describe(res));
            PBT_CHECK(fabsl(res->dmin - scaled(imin, a.scale)) <= fabsl(scaled(imin, a.scale)) * 1e-14L && fabsl(res->dmax - scaled(imax, a.scale)) <= fabsl(scaled(imax, a.scale)) * 1e-14L, w << ": real range");
        } else {
            PBT_CHECK(res->type == base->type, w << ": type");
            PBT_CHECK(res->len == (a.bits + (base->type == Vartype::Binary ? 7 : 0)) / 8, w << ": len " << res->len);
        }
        for (const Alt& o: alts)
            if (o.scale == a.scale && o.bits == a.bits && o.ref == a.ref)
                PBT_CHECK(o.res == res, w << ": asking again returns another object");
        a.res = res;
        a.copy = *res;
        alts.push_back(a);
        // Nothing else changes
        for (auto& k: known)
        {
            PBT_CHECK(same_info(*t->query(k.first), bases.count(k.first) ? bases[k.first] : *t->query(k.first)), w << ": base entry of " << codestr(k.first) << " changed");
            for (const Alt& o: k.second)
                PBT_CHECK(same_info(*o.res, o.copy), w << ": another alteration changed");
        }
        PBT_CHECK(t->query(code) == base, w << ": base entry moved");
    }
    if (used > 1) ctx.label("2 or more alterations");
    PBT_CHECK(caught([&] { t->query_altered(fxy(3, 63, 255), 0, 1, 0); }) == E_NOTFOUND, what << ": altered unknown code");
}

void run(Ctx& ctx)
{
    Gen& g = ctx.g;
    if (g.chance(1, 4))
    {
        // Shipped tables
        Loaded& l = shipped[g.cycle(shipped.size())];
        std::string what = "table " + l.name;
        bool crex = l.crex && (!l.bufr || g.boolean());
        const Vartable* t = crex ? l.crex : l.bufr;
        for (unsigned i = 0; i < 60; ++i)
        {
            Varcode c = (Varcode)g.draw(g.boolean() ? 65536 : 16384);
            if (i < 20 && !l.model.empty())
            {
                auto it = l.model.begin();
                std::advance(it, (long)g.draw(l.model.size()));
                c = it->first;
            }
            auto it = l.model.find(c);
            bool in = it != l.model.end() && (!crex || it->second.has_crex);
            PBT_CHECK(t->contains(c) == in, what << (crex ? " (crex)" : "") << ": contains " << codestr(c) << " is " << !in);
            if (in) check_entry(t->query(c), it->second, crex, what + " " + codestr(c));
            else PBT_CHECK(caught([&] { t->query(c); }) == E_NOTFOUND, what << ": query of missing " << codestr(c));
        }
        std::vector<Varcode> codes;
        for (unsigned i = 0; i < 4; ++i)
        {
            auto it = l.model.begin();
            std::advance(it, (long)g.draw(l.model.size()));
            if (!crex || it->second.has_crex) codes.push_back(it->first);
        }
        if (!crex && !codes.empty()) alterations(ctx, t, codes, what);
        ctx.label("shipped");
        ctx.nontrivial(hash_str(what) ^ g.draw(0));
        ctx.set_sample(what);
        return;
    }
    // Generated file
    static const char* units[] = { "K", "NUMERIC", "CODE TABLE", "CODETABLE 1234", "CODE TABLE 0 20 012", "FLAG TABLE", "FLAGTABLE 5", "CCITTIA5", "M/S", "PA", "DEGREE TRUE", "KG/(M**2)*S", "UNIT OF TWENTY-FOUR CHARS" };
    static const char* cunits[] = { "C", "NUMERIC", "CODE TABLE", "FLAGTABLE 5", "CHARACTER", "M/S", "hPa", "DEGREE TRUE", "A UNIT OF 23 CHARACTERS" };
    bool crex = g.boolean();
    BTable m;
    unsigned n = 1 + g.size(30);
    for (unsigned i = 0; i < n; ++i)
    {
        BEntry e;
        e.code = fxy(0, (unsigned)g.draw(64), (unsigned)g.draw(256));
        e.desc = g.ascii(g.chance(1, 4) ? (unsigned)g.range(55, 63) : g.size(40));
        while (!e.desc.empty() && e.desc.back() == ' ') e.desc.pop_back();
        e.unit = std::string(g.pick(units)).substr(0, 23);
        if (e.unit == "CCITTIA5") { e.bits = 8 * (unsigned)g.range(1, 40); }
        else
        {
            e.scale = (int)g.range(-16, 16);
            if (g.boolean()) e.scale = 0;
            e.ref = g.boolean() ? 0 : (int)g.edgy(-1073741824, 1073741824);
            e.bits = (unsigned)g.range(1, 32);
        }
        if (crex)
        {
            e.has_crex = true;
            e.cunit = g.pick(cunits);
            e.cscale = e.cunit == "CHARACTER" ? 0 : (int)g.range(-5, 9);
            e.clen = (unsigned)g.range(1, 12);
        }
        m[e.code] = e;
    }
    std::vector<std::string> lines;
    for (const auto& e: m) lines.push_back(line(g, e.second, crex));
    // What a parser sees after unit normalisation
    auto norm = [](std::string& u) {
        if (u.compare(0, 10, "CODE TABLE") == 0 || u.compare(0, 9, "CODETABLE") == 0) u = "CODE TABLE";
        if (u.compare(0, 10, "FLAG TABLE") == 0 || u.compare(0, 9, "FLAGTABLE") == 0) u = "FLAG TABLE";
    };
    for (auto& e: m) { norm(e.second.unit); norm(e.second.cunit); }
    // Rows for delayed replicators may lack the CREX part
    if (crex)
    {
        size_t i = 0;
        for (auto& e: m)
        {
            if (X(e.first) == 31 && g.boolean())
            {
                lines[i] = lines[i].substr(0, 119) + "\n";
                e.second.has_crex = false;
            }
            ++i;
        }
    }
    bool good = true;
    std::string defect;
    if (g.chance(1, 4))
    {
        good = false;
        size_t i = g.draw(lines.size());
        switch (g.draw(4))
        {
            case 0: {
                // Too short
                size_t min = crex ? 156 : 118;
                std::string l = lines[i].substr(0, g.draw(std::min(min, lines[i].size() - 1)));
                auto it = m.begin();
                std::advance(it, (long)i);
                // Cut inside of the code of a row that has no CREX part: not specified
                if (crex && X(it->first) == 31 && l.size() == 6) throw Discard("descriptor cut short");
                if (crex && X(it->first) == 31 && l.size() >= 7) { good = true; if (!it->second.has_crex || l.size() < 119) it->second.has_crex = false; else it->second.has_crex = false; }
                lines[i] = l + "\n";
                defect = "line too short";
                break;
            }
            case 1:
                // Duplicate
                {
                    auto it = m.begin();
                    std::advance(it, (long)i);
                    if (crex && !it->second.has_crex) { good = true; break; }
                    lines.insert(lines.begin() + (long)i, lines[i]);
                    defect = "duplicate line";
                }
                break;
            case 2:
                // Out of order
                {
                    size_t j = g.draw(lines.size());
                    auto a = m.begin(), b = m.begin();
                    std::advance(a, (long)i);
                    std::advance(b, (long)j);
                    if (i == j || (crex && (!a->second.has_crex || !b->second.has_crex))) { good = true; break; }
                    std::swap(lines[i], lines[j]);
                    defect = "lines out of order";
                }
                break;
            case 3: {
                // Longer than the line buffer
                std::string l = lines[i].substr(0, lines[i].size() - 1);
                l.resize(200 + g.draw(400), ' ');
                lines[i] = l + "\n";
                defect = "line too long";
                // Reading it whole would be fine too
                break;
            }
        }
    }
    std::string text;
    for (const auto& l: lines) text += l;
    std::string path = scratch_dir() + strf("/B%lu.txt", serial++);
    write_file(path, text);
    const Vartable* t = nullptr;
    std::string msg;
    Err e = caught([&] { t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path); }, &msg);
    std::string what = strf("generated %s table of %zu lines %s", crex ? "CREX" : "BUFR", lines.size(), defect.c_str());
    if (defect == "line too long" && t)
    {
        // Accepting it is fine, as long as it is read as the entry it contains
        check_all(t, m, crex, what);
    }
    else if (good)
    {
        PBT_CHECK(e == E_NONE && t, what << ": " << errname(e) << " " << msg);
        PBT_CHECK(t->path() == path && t->pathname() == path, what << ": path");
        check_all(t, m, crex, what);
        PBT_CHECK((crex ? Vartable::load_crex(path) : Vartable::load_bufr(path)) == t, what << ": loaded again");
        for (unsigned i = 0; i < 10; ++i)
        {
            Varcode c = (Varcode)g.draw(65536);
            auto it = m.find(c);
            bool in = it != m.end() && (!crex || it->second.has_crex);
            PBT_CHECK(t->contains(c) == in, what << ": contains " << codestr(c));
            if (!in) PBT_CHECK(caught([&] { t->query(c); }) == E_NOTFOUND, what << ": query of missing " << codestr(c));
        }
        if (!crex)
        {
            std::vector<Varcode> codes;
            for (const auto& x: m) codes.push_back(x.first);
            alterations(ctx, t, codes, what);
            check_all(t, m, crex, what + " after alterations");
        }
        ctx.label(crex ? "generated crex" : "generated bufr");
    } else {
        PBT_CHECK(e == E_PARSE, what << ": expected error_parse, got " << errname(e) << " " << msg);
        // And again: a failed load leaves nothing behind
        e = caught([&] { t = crex ? Vartable::load_crex(path) : Vartable::load_bufr(path); }, &msg);
        PBT_CHECK(e == E_PARSE, what << ": second load: " << errname(e));
        ctx.label(defect);
    }
    unlink(path.c_str());
    ctx.nontrivial(text);
    ctx.set_sample(what + ", first line " + quote(lines[0], 60));
}

void init()
{
    for (const std::string& n: list_tables('B'))
    {
        Loaded l;
        l.name = n;
        std::string path = tables_dir() + "/" + n + ".txt";
        l.model = load_b(path);
        bool any_crex = false, all_crex = true;
        for (const auto& e: l.model)
            if (e.second.has_crex) any_crex = true;
            else if (X(e.first) != 31) all_crex = false;
        l.bufr = nullptr;
        l.crex = nullptr;
        l.bufr = Vartable::load_bufr(path);
        check_all(l.bufr, l.model, false, "table " + n);
        if (any_crex && all_crex)
        {
            l.crex = Vartable::load_crex(path);
            check_all(l.crex, l.model, true, "crex table " + n);
        }
        shipped.push_back(l);
    }
    PBT_CHECK(shipped.size() > 20, "no tables found");
    PBT_CHECK(caught([] { Vartable::load_bufr("/nonexistent/B.txt"); }) == E_SYSTEM, "missing file");
    PBT_CHECK(caught([] { Vartable::load_crex("/nonexistent/B.txt"); }) == E_SYSTEM, "missing file");
}

pbt::Register r({"C12",
    "A case is a shipped table B (each compared in full with an independent parse at start, then random and present codes queried) or a generated BUFR/CREX table file of 1-31 lines (a quarter with a short, long, duplicate or misplaced line), followed by a random history of query_altered calls checked against the requested change. Non-trivial: every case, distinct by file content or queries.",
    run, init, 200000, 4000000, true});
}
