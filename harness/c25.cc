// C25: building a subset stores exactly the variables and bitmaps requested
#include "refbufr.h"
#include "refcrex.h"
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <wreport/dtable.h>
#include <cmath>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

// What a subset is expected to hold
typedef std::vector<Var> Expected;

bool same_value(const Var& a, const Var& b)
{
    if (a.code() != b.code() || a.info()->len != b.info()->len || a.info()->scale != b.info()->scale || a.info()->type != b.info()->type || a.isset() != b.isset()) return false;
    if (!a.isset()) return true;
    switch (a.info()->type)
    {
        case Vartype::Integer: case Vartype::Decimal: return a.enqi() == b.enqi();
        case Vartype::String: return !strcmp(a.enqc(), b.enqc());
        default: return !memcmp(a.enqc(), b.enqc(), a.info()->len);
    }
}
bool same_var(const Var& a, const Var& b)
{
    if (!same_value(a, b)) return false;
    const Var* x = a.next_attr(), *y = b.next_attr();
    for (; x && y; x = x->next_attr(), y = y->next_attr())
        if (!same_value(*x, *y)) return false;
    return !x && !y;
}

void check(const Expected& e, const Subset& s, const char* what, size_t n)
{
    PBT_CHECK(s.size() == e.size(), what << ": subset " << n << " has " << s.size() << " variables instead of " << e.size());
    for (size_t i = 0; i < e.size(); ++i)
        PBT_CHECK(same_var(e[i], s[i]), what << ": variable " << i << " of subset " << n << " is " << ref::var_text(s[i]) << " instead of " << ref::var_text(e[i]));
}

Var any_var(Gen& g, const std::vector<Varinfo>& infos)
{
    Varinfo info = g.pick(infos);
    Var v(info);
    if (g.chance(4, 5))
        switch (info->type)
        {
            case Vartype::String: v.setc(("S" + g.ascii(g.draw(info->len))).c_str()); break;
            case Vartype::Binary: break;
            default: if (info->imin <= info->imax) v.seti((int)g.edgy(info->imin, info->imax)); break;
        }
    return v;
}

// Definitions made for bitmaps, character data and unknown elements last as
// long as the tables that made them, wherever those are moved
void moved_tables(Gen& g)
{
    std::unique_ptr<Tables> t(new Tables);
    t->load_bufr(BufrTableID(0, 0, 0, 24, 0));
    const Vartable* bt = t->btable;
    const wreport::DTable* dt = t->dtable;
    struct Made { unsigned kind; code_t code; unsigned len; std::string bits; Var var; };
    std::vector<Made> made;
    auto get = [&](unsigned kind, code_t code, unsigned len, const std::string& bits) -> Varinfo {
        switch (kind)
        {
            case 0: return t->get_bitmap(code, bits);
            case 1: return t->get_chardata(code, len);
            default: return t->get_unknown(code, len);
        }
    };
    unsigned n = 1 + (unsigned)g.draw(12);
    for (unsigned i = 0; i < n; ++i)
    {
        unsigned kind = (unsigned)g.draw(3), len = 1 + (unsigned)g.draw(20);
        code_t code = 0;
        std::string bits;
        switch (kind)
        {
            case 0: code = fxy(2, (unsigned)g.pick({ 22, 23, 24, 36 }), 0); for (unsigned j = 0; j < len; ++j) bits += "+-"[g.draw(2)]; break;
            case 1: code = fxy(2, 5, len); break;
            default: code = fxy(0, (unsigned)g.range(48, 63), (unsigned)g.range(192, 255)); break;
        }
        Varinfo info = get(kind, code, len, bits);
        PBT_CHECK(info->code == code && info->len == (kind == 2 ? (len + 7) / 8 : len) && info->bit_len == (kind == 2 ? len : len * 8), "wrong definition " << describe(info) << " of " << codestr(code) << " of size " << len);
        Var v(info);
        if (kind == 0) v.setc(bits.c_str());
        else if (kind == 1) v.setc(std::string(len, 'x').c_str());
        made.push_back(Made{kind, code, len, bits, v});
        for (const auto& m: made)
            PBT_CHECK(same_value(Var(get(m.kind, m.code, m.len, m.bits)), Var(m.var.info())) && m.var.code() == m.code, "the definition of " << codestr(m.code) << " of size " << m.len << " changed");
        if (!g.chance(1, 3)) continue;
        std::unique_ptr<Tables> old(std::move(t));
        if (g.boolean()) t.reset(new Tables(std::move(*old)));
        else
        {
            t.reset(new Tables);
            if (g.boolean()) { t->load_bufr(BufrTableID(0, 0, 0, 13, 0)); t->get_chardata(fxy(2, 5, 1), 1); t->get_unknown(fxy(0, 48, 192), 3); t->get_bitmap(fxy(2, 22, 0), "+"); }
            *t = std::move(*old);
        }
        old.reset();
        PBT_CHECK(t->loaded() && t->btable == bt && t->dtable == dt, "moving the tables changes them");
    }
    for (const auto& m: made)
    {
        PBT_CHECK(same_value(Var(get(m.kind, m.code, m.len, m.bits)), Var(m.var.info())) && m.var.code() == m.code, "the definition of " << codestr(m.code) << " of size " << m.len << " changed");
        Var v(m.var);
        PBT_CHECK(v == m.var && v.format("-") == m.var.format("-"), "variables changed");
    }
    made.clear();
    t->clear();
    PBT_CHECK(!t->loaded() && !t->btable && !t->dtable, "tables are still there after clear()");
}

// A cleared bulletin holds nothing of its former contents
template<typename B> void fill_header(Gen& g, B& b)
{
    b.fname = "a file";
    b.offset = g.draw(1000) + 1;
    b.master_table_number = (uint8_t)g.draw(256);
    b.data_category = (uint8_t)g.draw(256);
    b.data_subcategory = (uint8_t)g.draw(256);
    b.data_subcategory_local = (uint8_t)g.draw(256);
    b.originating_centre = (uint16_t)g.draw(65536);
    b.originating_subcentre = (uint16_t)g.draw(65536);
    b.update_sequence_number = (uint8_t)g.draw(256);
    b.rep_year = (uint16_t)g.draw(3000);
    b.rep_month = (uint8_t)g.draw(13);
    b.rep_day = (uint8_t)g.draw(32);
    b.rep_hour = (uint8_t)g.draw(24);
    b.rep_minute = (uint8_t)g.draw(60);
    b.rep_second = (uint8_t)g.draw(60);
    b.edition_number = (uint8_t)(1 + g.draw(4));
    b.master_table_version_number = (uint8_t)g.draw(256);
    b.master_table_version_number_local = (uint8_t)g.draw(256);
    b.datadesc.push_back(fxy(0, 12, 101));
}
void check_cleared(const Bulletin& b, const Bulletin& f)
{
#define SAME(field) PBT_CHECK(b.field == f.field, "after clear(), " #field " is " << +b.field << " instead of " << +f.field)
    PBT_CHECK(b.fname.empty(), "after clear(), fname is " << b.fname);
    SAME(offset); SAME(master_table_number); SAME(data_category); SAME(data_subcategory); SAME(data_subcategory_local);
    SAME(originating_centre); SAME(originating_subcentre); SAME(update_sequence_number);
    SAME(rep_year); SAME(rep_month); SAME(rep_day); SAME(rep_hour); SAME(rep_minute); SAME(rep_second);
    PBT_CHECK(b.datadesc.empty() && b.subsets.empty() && !b.tables.loaded(), "after clear() there still are descriptors, subsets or tables");
}
void cleared(Gen& g, Bulletin& bull)
{
    if (BufrBulletin* p = dynamic_cast<BufrBulletin*>(&bull))
    {
        fill_header(g, *p);
        p->compression = g.boolean();
        if (g.boolean()) p->optional_section = g.ascii(g.draw(10) + 1);
        auto fp = BufrBulletin::create();
        fp->clear();
        p->clear();
        const BufrBulletin &b = *p, &f = *fp;
        check_cleared(b, f);
        SAME(edition_number); SAME(master_table_version_number); SAME(master_table_version_number_local); SAME(compression);
        PBT_CHECK(b.optional_section.empty(), "after clear() there still is an optional section");
    } else {
        CrexBulletin* q = dynamic_cast<CrexBulletin*>(&bull);
        fill_header(g, *q);
        q->master_table_version_number_bufr = (uint8_t)g.draw(256);
        q->has_check_digit = g.boolean();
        auto fp = CrexBulletin::create();
        fp->clear();
        q->clear();
        const CrexBulletin &b = *q, &f = *fp;
        check_cleared(b, f);
        SAME(edition_number); SAME(master_table_version_number); SAME(master_table_version_number_local); SAME(master_table_version_number_bufr); SAME(has_check_digit);
    }
#undef SAME
}

void run(Ctx& c)
{
    Gen& g = c.g;
    c.evaluations = 1;
    std::unique_ptr<Bulletin> b;
    std::vector<code_t> codes;
    std::string log;
    if (g.chance(3, 4))
    {
        auto bb = BufrBulletin::create();
        bb->edition_number = 4;
        bb->originating_centre = 0;
        bb->master_table_version_number = (uint8_t)g.range(13, 20);
        bb->load_tables();
        b = std::move(bb);
    } else {
        auto bb = CrexBulletin::create();
        bb->edition_number = 2;
        bb->master_table_version_number = 3;
        bb->load_tables();
        b = std::move(bb);
    }
    static std::map<std::string, BTable> tables;
    bool crex = !strcmp(b->encoding_name(), "CREX");
    std::string path = b->tables.btable->path();
    BTable& bt = tables[(crex ? "c" : "b") + path];
    if (bt.empty())
        for (const auto& e: load_b(path))
            if (!crex || e.second.has_crex) bt.insert(e);
    std::vector<Varinfo> infos;
    std::string pick_err;
    auto it = bt.begin();
    std::advance(it, g.draw(bt.size()));
    for (unsigned i = 0; i < 12; ++i)
    {
        Varinfo info = b->tables.btable->query(it->first);
        infos.push_back(info);
        std::advance(it, 1);
        if (it == bt.end()) it = bt.begin();
        for (unsigned j = (unsigned)g.draw(10); j; --j) if (++it == bt.end()) it = bt.begin();
    }
    // Codes for attributes
    std::vector<Varinfo> attrs;
    for (code_t a: {fxy(0, 33, 7), fxy(0, 33, 2), fxy(0, 33, 3)})
        if (bt.count(a)) attrs.push_back(b->tables.btable->query(a));

    std::vector<Expected> model;
    unsigned nops = 1 + g.size(40), nbitmaps = 0;
    unsigned stored = 0, refused = 0;
    for (unsigned op = 0; op < nops; ++op)
    {
        unsigned sn = g.chance(1, 6) ? (unsigned)g.draw(6) : 0;
        // Access to subsets
        if (sn >= model.size())
        {
            if (g.boolean())
            {
                Err e = caught([&] { b->subset(sn); });
                PBT_CHECK(e == E_NOTFOUND, "asking for subset " << sn << " of " << model.size() << " gives " << errname(e));
                PBT_CHECK(b->subsets.size() == model.size(), "asking for a subset created it");
            }
            model.resize(sn + 1);
        }
        Subset& s = b->obtain_subset(sn);
        PBT_CHECK(b->subsets.size() == model.size(), "there are " << b->subsets.size() << " subsets instead of " << model.size());
        PBT_CHECK(&s == &b->subsets[sn] && &b->subset(sn) == &s, "obtain_subset does not give the subset asked");
        PBT_CHECK(s.tables == &b->tables, "the subset does not use the tables of the bulletin");
        Expected& m = model[sn];
        Varinfo info = g.pick(infos);
        code_t code = info->code;
        // Sometimes one that is not in the table
        bool unknown = g.chance(1, 15);
        if (unknown) do { code = fxy(0, (unsigned)g.draw(64), (unsigned)g.draw(256)); } while (bt.count(code));
        unsigned kind = (unsigned)g.draw(12);
        Err e = E_NONE, expected = E_NONE;
        std::unique_ptr<Var> want;
        auto judge = [&](const char* what, std::function<void(Varinfo)> ref, std::function<void()> f) {
            if (unknown) expected = E_NOTFOUND;
            else expected = caught([&] { ref(info); });
            e = caught(f);
            log += strf(" [%u]%s %s", sn, what, codestr(code).c_str());
            PBT_CHECK(e == expected, what << " of " << codestr(code) << " " << describe(info) << " gives " << errname(e) << " but a variable gives " << errname(expected));
            if (want && e == E_NONE) { m.push_back(*want); ++stored; } else ++refused;
            want.reset();
        };
        switch (kind)
        {
            case 0:
            {
                Var v = any_var(g, infos);
                for (auto a: attrs) if (g.chance(1, 3)) { Var av(a); if (g.chance(4, 5)) av.seti((int)g.edgy(a->imin, a->imax)); v.seta(av); }
                s.store_variable(v);
                m.push_back(v);
                // The one stored is independent
                Var keep(v);
                v.unset();
                v.clear_attrs();
                PBT_CHECK(same_var(m.back(), s.back()), "the variable stored changed with the one given");
                log += " store";
                ++stored;
                break;
            }
            case 1:
            {
                Var v = any_var(g, infos);
                for (auto a: attrs) if (g.chance(1, 2)) v.seta(Var(a, 1));
                m.push_back(v);
                s.store_variable(std::move(v));
                log += " move";
                ++stored;
                break;
            }
            case 2:
            {
                Var v = any_var(g, infos);
                if (g.chance(1, 2)) info = v.info(), code = info->code, unknown = false;
                // The definition is the one of the table, whatever the one of the variable
                if (!crex && g.chance(1, 2) && (v.info()->type == Vartype::Integer || v.info()->type == Vartype::Decimal) && v.info()->scale < 10)
                {
                    Varinfo alt = b->tables.btable->query_altered(v.code(), v.info()->scale + 1, 32, 0);
                    if (v.isset() && (int64_t)v.enqi() * 10 <= alt->imax && (int64_t)v.enqi() * 10 >= alt->imin) v = Var(alt, v.enqi() * 10);
                    else v = Var(alt);
                }
                judge("store with code", [&](Varinfo i) { want.reset(new Var(i, v)); }, [&] { s.store_variable(code, v); });
                if (e == E_NONE) PBT_CHECK(s.back().info() == b->tables.btable->query(code), "store of " << ref::var_text(v) << " with code " << codestr(code) << " does not use the definition in the tables");
                break;
            }
            case 3: case 4:
            {
                int64_t lo = std::max<int64_t>(INT32_MIN, (int64_t)info->imin - 3), hi = std::min<int64_t>(INT32_MAX, (int64_t)info->imax + 3);
                int val = g.chance(1, 10) || lo > hi ? (int)g.edgy(INT32_MIN, INT32_MAX) : (int)g.edgy(lo, hi);
                judge("store_i", [&](Varinfo i) { want.reset(new Var(i, val)); }, [&] { s.store_variable_i(code, val); });
                break;
            }
            case 5: case 6:
            {
                double val = g.chance(1, 5) ? g.any_double() : (double)scaled(g.edgy((int64_t)info->imin - 3, std::max((int64_t)info->imin, (int64_t)info->imax) + 3), info->scale);
                judge("store_d", [&](Varinfo i) { want.reset(new Var(i, val)); }, [&] { s.store_variable_d(code, val); });
                break;
            }
            case 7:
            {
                std::string val = "S" + g.ascii(g.draw(2 * (info->len ? info->len : 1)));
                if (g.chance(1, 3)) val = std::to_string(g.edgy(-1000, 1000));
                judge("store_c", [&](Varinfo i) { want.reset(new Var(i, val.c_str())); }, [&] { s.store_variable_c(code, val.c_str()); });
                break;
            }
            case 8:
                if (g.boolean())
                    judge("store_undef", [&](Varinfo i) { want.reset(new Var(i)); }, [&] { s.store_variable_undef((Varcode)code); });
                else
                {
                    s.store_variable_undef(info);
                    m.push_back(Var(info));
                    ++stored;
                }
                break;
            case 9: case 10:
            {
                // Sometimes after very many variables
                if (nops < 12 && m.size() < 300 && g.chance(1, 12))
                {
                    unsigned many = (unsigned)g.range(200, 700), every = 1 + (unsigned)g.draw(5);
                    Var plain(info), full(info);
                    for (auto a: attrs) full.seta(Var(a, 1));
                    for (unsigned i = 0; i < many; ++i)
                    {
                        const Var& v = i % every ? plain : full;
                        s.store_variable(v);
                        m.push_back(v);
                    }
                    log += strf(" %u variables, with attributes every %u", many, every);
                    c.label("hundreds of variables");
                }
                // A bitmap of any size relative to what is in the subset
                unsigned avail = 0;
                for (const auto& v: m) if (F(v.code()) == 0) ++avail;
                unsigned size;
                switch (g.draw(4))
                {
                    case 0: size = avail; break;
                    case 1: size = 1 + (unsigned)g.draw(avail + 1); break;
                    case 2: size = avail + (unsigned)g.draw(5); break;
                    default: size = (unsigned)g.edgy(1, 600); break;
                }
                if (!size) size = 1;
                code_t cc = g.boolean() ? fxy(2, 22, 0) : fxy(2, 24, 0);
                std::string bits;
                if (kind == 9)
                {
                    code_t attr = attrs.empty() ? fxy(0, 33, 7) : g.pick(attrs)->code;
                    if (g.chance(1, 10)) attr = fxy(0, 33, 40);
                    int count = 0;
                    for (const auto& v: m)
                    {
                        if (F(v.code()) || bits.size() == size) continue;
                        bits += v.enqa(attr) ? '+' : '-';
                        if (bits.back() == '+') ++count;
                    }
                    bits.resize(size, '-');
                    int n = s.append_dpb(cc, size, attr);
                    PBT_CHECK(n == count, "append_dpb found " << n << " attributes instead of " << count);
                } else {
                    bits.assign(size, '+');
                    s.append_fixed_dpb(cc, (int)size);
                }
                PBT_CHECK(s.size() == m.size() + 1, "appending a bitmap added " << s.size() - m.size() << " variables");
                const Var& v = s.back();
                PBT_CHECK(v.code() == cc, "the bitmap has code " << codestr(v.code()) << " instead of " << codestr(cc));
                PBT_CHECK(v.isset() && v.enqc() == bits, "the bitmap is " << quote(v.isset() ? v.enqc() : "missing") << " instead of " << quote(bits));
                PBT_CHECK(v.info()->len == size, "the bitmap has length " << v.info()->len);
                m.push_back(v);
                log += strf(" bitmap of %u with %u variables", size, avail);
                ++nbitmaps;
                c.label(size > avail ? "bitmap longer than data" : size == avail ? "bitmap of the size of the data" : "bitmap shorter than data");
                break;
            }
            case 11:
            {
                // Copies are equal and independent
                Subset copy(s);
                check(m, copy, "copy", sn);
                PBT_CHECK(copy.diff(s) == 0 && s.diff(copy) == 0, "a copy differs");
                Subset moved(std::move(copy));
                check(m, moved, "moved", sn);
                PBT_CHECK(moved.tables == &b->tables, "a moved subset uses other tables");
                // One that uses other tables
                static Tables* tables2 = nullptr;
                if (!tables2) { tables2 = new Tables; tables2->load_bufr(BufrTableID(0, 0, 0, 24, 0)); }
                Subset other(g.boolean() ? b->tables : *tables2);
                other.store_variable_undef(info);
                other = std::move(moved);
                check(m, other, "assigned", sn);
                PBT_CHECK(other.tables == &b->tables, "an assigned subset does not use the same tables");
                other.store_variable_undef(info);
                Subset again(g.boolean() ? b->tables : *tables2);
                again = other;
                PBT_CHECK(again.tables == &b->tables, "a copied subset does not use the same tables");
                PBT_CHECK(again.size() == m.size() + 1, "assigned copy has " << again.size() << " variables");
                PBT_CHECK(again.diff(s) != 0, "a subset with one more variable does not differ");
                if (g.boolean()) { again.pop_back(); s = std::move(again); }
                log += " copy";
                break;
            }
        }
        check(m, s, "after an operation", sn);
    }
    for (size_t i = 0; i < model.size(); ++i) check(model[i], b->subset((unsigned)i), "at the end", i);
    if (g.chance(1, 4))
    {
        model.clear();
        cleared(g, *b);
        auto* bb = dynamic_cast<BufrBulletin*>(b.get());
        if (bb)
        {
            // It can be used again
            bb->edition_number = 4;
            bb->originating_centre = 0;
            bb->originating_subcentre = 0;
            bb->master_table_version_number = (uint8_t)g.range(13, 20);
            bb->load_tables();
            const Bulletin& cb = *b;
            PBT_CHECK(cb.subsets.empty(), "a cleared bulletin has subsets");
            Varinfo info = bb->tables.btable->query(fxy(0, 12, 101));
            bb->obtain_subset(0).store_variable_i(fxy(0, 12, 101), 27315);
            check({Var(info, 27315)}, bb->subset(0), "in a cleared bulletin", 0);
        }
        c.label("cleared");
    }
    if (g.chance(1, 8)) { moved_tables(g); c.label("moved tables"); }
    c.set_sample(log);
    if (refused) c.label("refused");
    if (nbitmaps) c.label("bitmaps");
    if (stored > 1) c.nontrivial(log);
}

Register r({"C25", "random histories of store, bitmap and copy operations over the subsets of a bulletin, compared after each operation with a list of variables; errors must be the ones of the variable itself and leave the subset as it was; non trivial: more than one variable stored; distinct: operations",
        run, init_tables, 400000, 8000000, true});
}
