// C14: table lookup picks the closest usable table deterministically
#include "model.h"
#include <wreport/tableinfo.h>
#include <wreport/internals/tabledir.h>
#include <wreport/tables.h>
#include <wreport/dtable.h>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
#include <climits>
#include <tuple>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

// Identification of a table file; centre/subcentre/version/local, or CREX edition
struct MT
{
    std::string file;
    size_t dir = 0;
    bool crex = false;
    unsigned ed = 0, ce = 0, sc = 0, mt = 0, mtv = 0, mtvb = 0, lt = 0;
};

struct Req
{
    bool crex = false;
    unsigned ed = 0, ce = 0, sc = 0, mt = 0, mtv = 0, mtvb = 0, lt = 0;
};

bool acceptable(const Req& r, const MT& t)
{
    if (!r.crex)
        return !t.crex && t.mt == r.mt && t.mtv >= r.mtv;
    if (t.crex)
        return t.ed == r.ed && t.mt == r.mt && t.mtv >= r.mtv && t.mtvb >= r.mtvb;
    return t.mt == r.mt && t.mtv >= r.mtvb;
}

// Smaller is better. Lexicographic: version, centre, and for the same centre
// local version and subcentre
std::vector<long> rank(const Req& r, const MT& t, bool mixed)
{
    std::vector<long> res;
    if (mixed) res.push_back(t.crex ? t.mtvb : t.mtv);
    else
    {
        res.push_back(t.mtv);
        if (t.crex) res.push_back(t.mtvb);
    }
    long centre = t.ce == r.ce ? 0 : t.ce == 0 ? 1 : t.ce == 0xffff ? 2 : 3;
    res.push_back(centre);
    if (centre == 0)
    {
        // Not older than the one wanted, then the closest
        res.push_back(t.lt < r.lt ? 1000 + (long)r.lt - (long)t.lt : (long)t.lt - (long)r.lt);
        res.push_back(t.sc == r.sc ? 0 : 1);
    } else {
        res.push_back(0);
        res.push_back(0);
    }
    return res;
}

// Candidates in search order; best BUFR, best CREX, then the best of the two
const MT* choose(const Req& r, const std::vector<MT>& tables)
{
    const MT* best[2] = { nullptr, nullptr };
    for (const MT& t: tables)
    {
        if (!acceptable(r, t)) continue;
        const MT*& b = best[t.crex];
        if (!b || rank(r, t, false) < rank(r, *b, false)) b = &t;
    }
    if (!best[0]) return best[1];
    if (!best[1]) return best[0];
    return rank(r, *best[1], true) < rank(r, *best[0], true) ? best[1] : best[0];
}

std::string show(const Req& r)
{
    if (r.crex) return strf("CREX ed %u %u:%u %u:%u:%u:%u", r.ed, r.ce, r.sc, r.mt, r.mtv, r.mtvb, r.lt);
    return strf("BUFR %u:%u %u:%u:%u", r.ce, r.sc, r.mt, r.mtv, r.lt);
}

const tabledir::Table* find(tabledir::Tabledirs& td, const Req& r)
{
    if (r.crex)
        return td.find_crex(CrexTableID((uint8_t)r.ed, (uint16_t)r.ce, (uint16_t)r.sc, (uint8_t)r.mt, (uint8_t)r.mtv, (uint8_t)r.mtvb, (uint8_t)r.lt));
    return td.find_bufr(BufrTableID((uint16_t)r.ce, (uint16_t)r.sc, (uint8_t)r.mt, (uint8_t)r.mtv, (uint8_t)r.lt));
}

// Parse a file name
bool parse_name(const std::string& base, MT& t)
{
    t.file = base;
    auto n = [&](size_t pos, size_t len) { return (unsigned)atoi(base.substr(pos, len).c_str()); };
    switch (base.size())
    {
        case 7:
            t.crex = true; t.mt = n(1, 2); t.ed = n(3, 2); t.mtv = n(5, 2);
            return true;
        case 16:
            t.sc = n(6, 3); t.ce = n(9, 3); t.mtv = n(12, 2); t.lt = n(14, 2);
            return true;
        case 20:
            t.sc = n(6, 4); t.ce = n(10, 4); t.mtv = n(14, 3); t.lt = n(17, 3);
            return true;
    }
    return false;
}

std::vector<MT> shipped;
unsigned long serial = 0;

Req gen_req(Gen& g, const std::vector<MT>& pool)
{
    Req r;
    if (!pool.empty() && g.chance(2, 3))
    {
        const MT& t = g.pick(pool);
        r.crex = t.crex || g.chance(1, 4);
        r.ed = t.crex ? t.ed : 1; r.ce = t.ce; r.sc = t.sc; r.mt = t.mt; r.mtv = t.mtv; r.mtvb = t.crex ? t.mtvb : t.mtv; r.lt = t.lt;
        if (g.boolean()) switch (g.draw(6))
        {
            case 0: r.mtv = (unsigned)std::max(0l, (long)r.mtv + g.range(-2, 2)); break;
            case 1: r.ce = g.boolean() ? 98 : (unsigned)g.range(0, 300); break;
            case 2: r.sc = (unsigned)g.range(0, 3); break;
            case 3: r.lt = (unsigned)g.range(0, 5); break;
            case 4: r.mtvb = (unsigned)std::max(0l, (long)r.mtvb + g.range(-2, 2)); break;
            case 5: r.mt = (unsigned)g.range(0, 2); break;
        }
        return r;
    }
    r.crex = g.boolean();
    r.ed = (unsigned)g.range(1, 2);
    r.ce = (unsigned)(g.boolean() ? 0 : g.boolean() ? 98 : g.edgy(0, 65535));
    r.sc = (unsigned)(g.boolean() ? 0 : g.edgy(0, 65535));
    r.mt = g.chance(1, 8) ? (unsigned)g.draw(256) : 0;
    r.mtv = (unsigned)g.range(0, 35);
    r.mtvb = (unsigned)(g.boolean() ? 0 : g.range(0, 35));
    r.lt = (unsigned)(g.boolean() ? 0 : g.edgy(0, 255));
    return r;
}

void check(const tabledir::Table* got, const MT* exp, const std::vector<std::string>& dirs, const std::string& what)
{
    if (!exp)
    {
        PBT_CHECK(!got, what << ": found " << got->btable_id << ", expected none");
        return;
    }
    PBT_CHECK(got, what << ": not found, expected " << exp->file);
    PBT_CHECK(got->btable_id == exp->file && got->btable_pathname == dirs[exp->dir] + "/" + exp->file + ".txt", what << ": found " << got->btable_pathname.native() << ", expected " << dirs[exp->dir] << "/" << exp->file);
    PBT_CHECK(got->dtable_id == "D" + exp->file.substr(1) && got->dtable_pathname == dirs[exp->dir] + "/D" + exp->file.substr(1) + ".txt", what << ": D table is " << got->dtable_pathname.native());
    if (auto b = dynamic_cast<const tabledir::BufrTable*>(got))
    {
        PBT_CHECK(!exp->crex, what << ": kind of table");
        PBT_CHECK(b->id.originating_centre == exp->ce && b->id.originating_subcentre == exp->sc && b->id.master_table_number == exp->mt
                && b->id.master_table_version_number == exp->mtv && b->id.master_table_version_number_local == exp->lt, what << ": id of " << exp->file);
    } else {
        auto c = dynamic_cast<const tabledir::CrexTable*>(got);
        PBT_CHECK(exp->crex && c, what << ": kind of table");
        PBT_CHECK(c->id.edition_number == exp->ed && c->id.master_table_number == exp->mt && c->id.master_table_version_number == exp->mtv, what << ": id of " << exp->file);
    }
}

void run_shipped(Ctx& ctx)
{
    Gen& g = ctx.g;
    Req r = gen_req(g, shipped);
    std::string what = "shipped tables, " + show(r);
    std::vector<std::string> dirs { tables_dir() };
    const MT* exp = choose(r, shipped);
    check(find(tabledir::Tabledirs::get(), r), exp, dirs, what);
    // The tables actually loaded
    Tables t;
    std::string msg;
    PBT_CHECK(!t.loaded(), what << ": loaded");
    if (!exp)
    {
        Err e = caught([&] { if (r.crex) t.load_crex(CrexTableID((uint8_t)r.ed, (uint16_t)r.ce, (uint16_t)r.sc, (uint8_t)r.mt, (uint8_t)r.mtv, (uint8_t)r.mtvb, (uint8_t)r.lt));
            else t.load_bufr(BufrTableID((uint16_t)r.ce, (uint16_t)r.sc, (uint8_t)r.mt, (uint8_t)r.mtv, (uint8_t)r.lt)); });
        PBT_CHECK(e == E_NOTFOUND, what << ": expected error_notfound, got " << errname(e));
        PBT_CHECK(!t.loaded(), what << ": loaded");
    } else if (!r.crex) {
        BufrTableID id((uint16_t)r.ce, (uint16_t)r.sc, (uint8_t)r.mt, (uint8_t)r.mtv, (uint8_t)r.lt);
        t.load_bufr(id);
        PBT_CHECK(t.loaded() && t.btable->path() == dirs[0] + "/" + exp->file + ".txt" && t.dtable->path() == dirs[0] + "/D" + exp->file.substr(1) + ".txt", what << ": loaded " << t.btable->pathname());
        PBT_CHECK(Vartable::get_bufr(id) == t.btable, what << ": get_bufr");
        PBT_CHECK(Vartable::get_bufr(exp->file) == t.btable, what << ": get_bufr by name");
        t.clear();
        PBT_CHECK(!t.loaded(), what << ": loaded after clear");
    } else {
        CrexTableID id((uint8_t)r.ed, (uint16_t)r.ce, (uint16_t)r.sc, (uint8_t)r.mt, (uint8_t)r.mtv, (uint8_t)r.mtvb, (uint8_t)r.lt);
        // Not all the BUFR tables have a CREX part
        Err e = caught([&] { t.load_crex(id); }, &msg);
        if (e == E_NONE)
            PBT_CHECK(t.loaded() && t.btable->path() == dirs[0] + "/" + exp->file + ".txt" && t.dtable->path() == dirs[0] + "/D" + exp->file.substr(1) + ".txt" && Vartable::get_crex(id) == t.btable, what << ": loaded " << t.btable->pathname());
        else
            PBT_CHECK(e == E_PARSE, what << ": " << errname(e) << " " << msg);
    }
    ctx.label(exp ? "shipped: found" : "shipped: none");
    if (exp) ctx.nontrivial(what);
    ctx.set_sample(what + " -> " + (exp ? exp->file : "none"));
}

void run_generated(Ctx& ctx)
{
    Gen& g = ctx.g;
    unsigned ndirs = 1 + (unsigned)g.draw(3);
    std::vector<std::string> dirs;
    std::vector<MT> all;
    std::string base = scratch_dir() + strf("/t%lu", serial++);
    mkdir(base.c_str(), 0700);
    std::vector<std::string> files;
    std::vector<std::tuple<unsigned, std::string, bool>> others;
    for (unsigned d = 0; d < ndirs; ++d)
    {
        dirs.push_back(base + strf("/d%u", d));
        mkdir(dirs.back().c_str(), 0700);
        std::vector<std::string> names;
        unsigned n = g.size(10);
        for (unsigned i = 0; i < n; ++i)
        {
            unsigned mtv = (unsigned)g.range(10, 16), lt = (unsigned)(g.boolean() ? 0 : g.range(0, 4));
            static const unsigned ces[] = { 0, 98, 98, 85, 255, 200, 65535 };
            unsigned ce = g.pick(ces), sc = (unsigned)(g.boolean() ? 0 : g.range(0, 3));
            std::string name;
            switch (g.draw(4))
            {
                case 0: name = strf("B%02u%02u%02u", (unsigned)(g.chance(1, 5) ? 1 : 0), (unsigned)g.range(1, 2), (unsigned)g.range(1, 16)); break;
                case 1: name = strf("B00000%03u%03u%02u%02u", sc, std::min(ce, 999u), mtv, lt); break;
                default: name = strf("B00000%04u%04u%03u%03u", sc, std::min(ce, 9999u), mtv, lt); break;
            }
            if (g.chance(1, 8)) name = std::string("X") + name.substr(1);    // not for lookups by id
            if (g.chance(1, 12)) name[0] = 'D';
            names.push_back(name);
        }
        std::sort(names.begin(), names.end());
        names.erase(std::unique(names.begin(), names.end()), names.end());
        for (const auto& n: names)
        {
            MT t;
            t.dir = d;
            if (n[0] == 'B' && parse_name(n, t)) all.push_back(t);
        }
        // Create them in any order
        std::vector<std::string> order(names);
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.draw(i)]);
        for (const auto& n: order)
        {
            std::string ext = ".txt";
            if (g.chance(1, 15)) ext = g.pick(std::vector<std::string>{".bak", ".txt~", ".txt.orig", ".TXT", ""});
            files.push_back(dirs.back() + "/" + n + ext);
            // Other names can only be asked for by name
            if (n[0] == 'X') others.push_back(std::make_tuple(d, n, ext == ".txt"));
            FILE* f = fopen(files.back().c_str(), "w");
            if (f) fclose(f);
            if (ext != ".txt")
                all.erase(std::remove_if(all.begin(), all.end(), [&](const MT& t) { return t.dir == d && t.file == n; }), all.end());
        }
    }
    unsigned found = 0;
    std::string log;
    {
        tabledir::Tabledirs td;
        unsigned added = 0;
        std::vector<MT> visible;
        auto add = [&] {
            std::string name = dirs[added];
            if (g.boolean()) name += "/";
            td.add_directory(name);
            if (g.chance(1, 4)) td.add_directory(dirs[added]);
            for (const MT& t: all) if (t.dir == added) visible.push_back(t);
            ++added;
        };
        add();
        unsigned n = 1 + g.size(12);
        std::vector<std::pair<Req, const tabledir::Table*>> history;
        for (unsigned i = 0; i < n && !g.exhausted(); ++i)
        {
            if (added < ndirs && g.chance(1, 3)) { add(); history.clear(); }
            Req r = gen_req(g, all);
            const MT* exp = choose(r, visible);
            const tabledir::Table* got = find(td, r);
            std::string what = log + show(r);
            check(got, exp, dirs, what);
            if (exp) ++found;
            log += show(r) + " -> " + (exp ? exp->file : "none") + "; ";
            history.push_back(std::make_pair(r, got));
            // Asking again changes nothing
            if (g.boolean())
            {
                const auto& h = g.pick(history);
                PBT_CHECK(find(td, h.first) == h.second, what << ": asking again for " << show(h.first) << " gives another table");
            }
            // By name
            if (!visible.empty() && g.boolean())
            {
                const MT& t = g.pick(visible);
                const MT* first = nullptr;
                for (const MT& v: visible) if (v.file == t.file) { first = &v; break; }
                check(td.find(t.file), first, dirs, what + " by name");
                PBT_CHECK(td.find(t.file + "9") == nullptr, what << ": found by wrong name");
            }
            if (!others.empty() && g.chance(1, 4))
            {
                std::string name = std::get<1>(g.pick(others)), path;
                for (const auto& o: others) if (std::get<0>(o) < added && std::get<1>(o) == name && std::get<2>(o) && path.empty()) path = dirs[std::get<0>(o)] + "/" + name + ".txt";
                const tabledir::Table* t = td.find(name);
                PBT_CHECK(t ? !path.empty() && t->btable_id == name && t->btable_pathname == path : path.empty(), what << ": by name " << name << ": found " << (t ? t->btable_pathname.native() : "nothing") << " instead of " << (path.empty() ? "nothing" : path));
                ctx.label("by other name");
            }
            // All ids in all directories: the best one wins whatever the order
            if (ndirs > 1 && added == ndirs && g.chance(1, 4))
            {
                tabledir::Tabledirs td2;
                for (unsigned d = ndirs; d-- > 0; ) td2.add_directory(dirs[d]);
                const tabledir::Table* got2 = find(td2, r);
                PBT_CHECK(!got == !got2, what << ": result depends on the order of directories");
                if (exp)
                {
                    MT t2;
                    parse_name(got2->btable_id, t2);
                    PBT_CHECK(t2.crex == exp->crex && rank(r, t2, false) == rank(r, *exp, false), what << ": a worse table " << got2->btable_id << " instead of " << exp->file << " depending on the order of directories");
                }
            }
        }
    }
    for (const auto& f: files) unlink(f.c_str());
    for (const auto& d: dirs) rmdir(d.c_str());
    rmdir(base.c_str());
    ctx.label(found ? "generated: some found" : "generated: none found");
    if (found) ctx.nontrivial(log);
    ctx.set_sample(log);
}

// The comparison is a consistent order
void run_order(Ctx& ctx)
{
    Gen& g = ctx.g;
    auto id = [&] { return BufrTableID((uint16_t)(g.boolean() ? 98 : g.boolean() ? 0 : g.boolean() ? 0xffff : g.range(0, 3)), (uint16_t)g.range(0, 2), (uint8_t)g.draw(2), (uint8_t)g.range(10, 13), (uint8_t)g.range(0, 4)); };
    auto cid = [&] { return CrexTableID((uint8_t)g.range(1, 2), (uint16_t)(g.boolean() ? 98 : g.boolean() ? 0 : g.range(0, 3)), (uint16_t)g.range(0, 2), (uint8_t)g.draw(2), (uint8_t)g.range(10, 12), (uint8_t)g.range(10, 12), (uint8_t)g.range(0, 4)); };
    auto sgn = [](int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; };
    auto mt = [](const BufrTableID& b) { MT t; t.ce = b.originating_centre; t.sc = b.originating_subcentre; t.mt = b.master_table_number; t.mtv = b.master_table_version_number; t.lt = b.master_table_version_number_local; return t; };
    auto cmt = [](const CrexTableID& b) { MT t; t.crex = true; t.ed = b.edition_number; t.ce = b.originating_centre; t.sc = b.originating_subcentre; t.mt = b.master_table_number; t.mtv = b.master_table_version_number; t.mtvb = b.master_table_version_number_bufr; t.lt = b.master_table_version_number_local; return t; };
    auto cmp = [](const std::vector<long>& a, const std::vector<long>& b) { return a < b ? -1 : b < a ? 1 : 0; };
    if (g.boolean())
    {
        BufrTableID base = id(), a = id(), b = id(), c = id();
        Req r;
        MT m = mt(base);
        r.ce = m.ce; r.sc = m.sc; r.mt = m.mt; r.mtv = m.mtv; r.lt = m.lt;
        std::string what = show(r);
        PBT_CHECK(base.is_acceptable_replacement(a) == acceptable(r, mt(a)), what << ": acceptable");
        PBT_CHECK(base.is_acceptable_replacement(base), what << ": itself is not acceptable");
        if (!acceptable(r, mt(a)) || !acceptable(r, mt(b)) || !acceptable(r, mt(c))) { ctx.label("order: not acceptable"); return; }
        int ab = sgn(base.closest_match(a, b)), ba = sgn(base.closest_match(b, a)), bc = sgn(base.closest_match(b, c)), ac = sgn(base.closest_match(a, c));
        PBT_CHECK(ab == -ba, what << ": comparison is not antisymmetric");
        PBT_CHECK(base.closest_match(a, a) == 0, what << ": comparison with itself");
        PBT_CHECK(!(ab <= 0 && bc <= 0) || ac <= 0, what << ": comparison is not transitive");
        PBT_CHECK(ab == cmp(rank(r, mt(a), false), rank(r, mt(b), false)), what << ": comparison gives " << ab);
        PBT_CHECK(base.closest_match(base, a) <= 0, what << ": exact match is not preferred");
        PBT_CHECK(!(a < a) && (!(a < b) || !(b < a)), what << ": operator<");
        PBT_CHECK(!((a < b) && (b < c)) || (a < c), what << ": operator< is not transitive");
        bool eq = a.originating_centre == b.originating_centre && a.originating_subcentre == b.originating_subcentre && a.master_table_number == b.master_table_number && a.master_table_version_number == b.master_table_version_number && a.master_table_version_number_local == b.master_table_version_number_local;
        PBT_CHECK(eq == (!(a < b) && !(b < a)), what << ": operator< does not tell ids apart");
        PBT_CHECK(!base.is_acceptable_replacement(cid()), what << ": CREX table for BUFR");
        ctx.nontrivial(what + strf("%d%d%d", ab, bc, ac) + hex(std::string((const char*)&a, sizeof(a))));
    } else {
        CrexTableID base = cid(), a = cid(), b = cid(), c = cid();
        BufrTableID x = id(), y = id();
        Req r;
        MT m = cmt(base);
        r.crex = true; r.ed = m.ed; r.ce = m.ce; r.sc = m.sc; r.mt = m.mt; r.mtv = m.mtv; r.mtvb = m.mtvb; r.lt = m.lt;
        std::string what = show(r);
        PBT_CHECK(base.is_acceptable_replacement(a) == acceptable(r, cmt(a)), what << ": acceptable");
        PBT_CHECK(base.is_acceptable_replacement(x) == acceptable(r, mt(x)), what << ": acceptable BUFR");
        bool eq = !memcmp(&a.edition_number, &b.edition_number, 1) && a.originating_centre == b.originating_centre && a.originating_subcentre == b.originating_subcentre && a.master_table_number == b.master_table_number && a.master_table_version_number == b.master_table_version_number && a.master_table_version_number_bufr == b.master_table_version_number_bufr && a.master_table_version_number_local == b.master_table_version_number_local;
        PBT_CHECK(eq == (!(a < b) && !(b < a)), what << ": operator< does not tell ids apart");
        PBT_CHECK(!((a < b) && (b < c)) || (a < c), what << ": operator< is not transitive");
        if (acceptable(r, cmt(a)) && acceptable(r, cmt(b)))
        {
            int ab = sgn(base.closest_match(a, b));
            PBT_CHECK(ab == -sgn(base.closest_match(b, a)), what << ": comparison is not antisymmetric");
            PBT_CHECK(ab == cmp(rank(r, cmt(a), false), rank(r, cmt(b), false)), what << ": comparison gives " << ab);
            PBT_CHECK(base.closest_match(base, a) <= 0, what << ": exact match is not preferred");
        }
        if (acceptable(r, mt(x)) && acceptable(r, mt(y)))
            PBT_CHECK(sgn(base.closest_match(x, y)) == cmp(rank(r, mt(x), false), rank(r, mt(y), false)), what << ": BUFR comparison");
        if (acceptable(r, mt(x)) && acceptable(r, cmt(a)))
            PBT_CHECK(sgn(base.closest_match(x, a)) == cmp(rank(r, mt(x), true), rank(r, cmt(a), true)), what << ": mixed comparison");
        ctx.nontrivial(what + hex(std::string((const char*)&a, sizeof(a))));
    }
    ctx.label("order");
}

void run(Ctx& ctx)
{
    switch (ctx.g.draw(4))
    {
        case 0: run_shipped(ctx); break;
        case 1: run_generated(ctx); break;
        default: run_order(ctx); break;
    }
}

void init()
{
    for (const std::string& n: list_tables('B'))
    {
        MT t;
        if (parse_name(n, t)) shipped.push_back(t);
    }
    PBT_CHECK(shipped.size() > 20, "no tables found");
    std::vector<std::string> dirs { tables_dir() };
    // Every shipped table is found by its own identification
    for (const MT& t: shipped)
    {
        Req r;
        r.crex = t.crex; r.ed = t.ed; r.ce = t.ce; r.sc = t.sc; r.mt = t.mt; r.mtv = t.mtv; r.mtvb = t.mtvb; r.lt = t.lt;
        check(find(tabledir::Tabledirs::get(), r), choose(r, shipped), dirs, "shipped table " + t.file);
    }
}

pbt::Register r({"C14",
    "A case is a request against the shipped tables, a set of 1-3 generated table directories (names in all three formats, other files, random creation order) with a history of requests and directory additions, or a triple of table ids for the order axioms; the expected choice comes from an independent ranking. Non-trivial: requests that find a table, histories where at least one does, comparable ids; distinct by ids.",
    run, init, 200000, 8000000, true});
}
