// C20: encoding never silently writes a message that says something else
#include "fuzz.h"
#include "refcrex.h"
#include <wreport/error.h>
#include <wreport/bulletin/dds-validator.h>

using namespace wreport;
using namespace pbt;

namespace {
using model::fxy;
using model::code_t;

template<typename F> bool attempt(F f, std::string* msg = nullptr)
{
    try { f(); return true; } catch (wreport::error& e) { if (msg) *msg = e.what(); return false; }
}

std::string rtrim(std::string s)
{
    while (!s.empty() && (s.back() == ' ' || s.back() == '\0')) s.pop_back();
    return s;
}

bool numeric(const Var& v) { return v.info()->type == Vartype::Integer || v.info()->type == Vartype::Decimal; }

// Does the decoded variable say the same as the original, as far as its
// definition can tell?
bool says(const Var& orig, const Var& dec)
{
    // Outside of replication factors, class 31 values with all bits set can be
    // given as such or as missing
    if (WR_VAR_F(dec.code()) == 0 && WR_VAR_X(dec.code()) == 31 && orig.isset() && !dec.isset() && numeric(orig)
            && dec.info()->bit_len < 31 && fabs(orig.enqd() * pow(10.0, dec.info()->scale) - dec.info()->bit_ref - (double)((1u << dec.info()->bit_len) - 1)) <= 0.5000001) return true;
    if (orig.isset() != dec.isset()) return false;
    if (!orig.isset()) return true;
    if (numeric(orig) && numeric(dec))
    {
        if (orig.info()->scale == dec.info()->scale) return orig.enqi() == dec.enqi();
        double unit = pow(10.0, -dec.info()->scale);
        return fabs(orig.enqd() - dec.enqd()) <= unit * 0.5000001 + fabs(orig.enqd()) * 1e-12;
    }
    return rtrim(orig.enqs()) == rtrim(dec.enqs());
}

void compare(const Bulletin& orig, const Bulletin& dec)
{
    PBT_CHECK(orig.subsets.size() == dec.subsets.size(), "encoded " << orig.subsets.size() << " subsets, decoded " << dec.subsets.size());
    PBT_CHECK(orig.datadesc == dec.datadesc, "encoded data descriptors differ");
    for (size_t s = 0; s < orig.subsets.size(); ++s)
    {
        const Subset& a = orig.subsets[s];
        const Subset& b = dec.subsets[s];
        PBT_CHECK(a.size() == b.size(), "subset " << s << " has " << a.size() << " variables but " << b.size() << " were decoded");
        for (size_t i = 0; i < a.size(); ++i)
        {
            PBT_CHECK(a[i].code() == b[i].code(), "variable " << s << "." << i << ": encoded " << model::codestr(a[i].code()) << ", decoded " << model::codestr(b[i].code()));
            PBT_CHECK(says(a[i], b[i]), "variable " << s << "." << i << ": encoded " << ref::var_text(a[i]) << ", decoded " << ref::var_text(b[i]));
            for (const Var* x = b[i].next_attr(); x; x = x->next_attr())
            {
                if (!x->isset()) continue;
                const Var* o = a[i].enqa(x->code());
                PBT_CHECK(o, "variable " << s << "." << i << " decoded with attribute " << ref::var_text(*x) << " that it did not have");
                PBT_CHECK(says(*o, *x), "attribute of variable " << s << "." << i << ": encoded " << ref::var_text(*o) << ", decoded " << ref::var_text(*x));
            }
        }
    }
}

// Definitions that tables do not have
struct InfoDefs
{
    std::deque<std::unique_ptr<_Varinfo>> defs;
    // Same code, other scale and range
    Varinfo other(Gen& g, Varinfo i)
    {
        std::unique_ptr<_Varinfo> n(new _Varinfo);
        switch (i->type)
        {
            case Vartype::Integer: case Vartype::Decimal:
            {
                bool code = i->type == Vartype::Integer && (!strcmp(i->unit, "CODE TABLE") || !strcmp(i->unit, "FLAG TABLE"));
                n->set_bufr(i->code, i->desc, i->unit, code ? 0 : (int)g.range(-3, 6), 9, g.boolean() ? 0 : -(int)g.draw(100000), (int)g.edgy(2, 31));
                break;
            }
            case Vartype::String: n->set_string(i->code, i->desc, (unsigned)g.edgy(1, 100)); break;
            case Vartype::Binary: n->set_binary(i->code, i->desc, (unsigned)g.edgy(1, 100)); break;
        }
        defs.push_back(std::move(n));
        return defs.back().get();
    }
    Varinfo crex(Gen& g, Varinfo i)
    {
        std::unique_ptr<_Varinfo> n(new _Varinfo);
        if (i->type == Vartype::String) n->set_crex(i->code, i->desc, i->unit, 0, (unsigned)g.edgy(1, 100));
        else n->set_crex(i->code, i->desc, i->unit, g.boolean() ? i->scale : (int)g.range(-3, 6), (unsigned)g.range(1, 10));
        defs.push_back(std::move(n));
        return defs.back().get();
    }
};

Var fill(Gen& g, Varinfo i)
{
    Var v(i);
    if (g.chance(1, 8)) return v;
    switch (i->type)
    {
        case Vartype::Integer: case Vartype::Decimal: if (i->imin <= i->imax) v.seti((int)g.edgy(i->imin, i->imax)); break;
        case Vartype::String: { std::string s = g.ascii(g.size(i->len)); v.sets(rtrim(s)); break; }
        case Vartype::Binary: { std::string s = g.bytes(i->len); s[0] = 0; v.setc(s.c_str()); break; }
    }
    return v;
}

void corrupt(Gen& g, ref::Message& m, BufrBulletin& b, InfoDefs& defs, std::string& what)
{
    Subset& s = b.subsets[g.draw(b.subsets.size())];
    auto pos = [&] { return (size_t)g.draw(s.size()); };
    auto any_info = [&]() -> Varinfo {
        const ref::Tab& t = *m.tab;
        switch (g.draw(3))
        {
            case 0: return b.tables.btable->query(t.nums[g.draw(t.nums.size())]->code);
            case 1: return b.tables.btable->query(t.codes[g.draw(t.codes.size())]->code);
            default: return b.tables.btable->query(t.strs[g.draw(t.strs.size())]->code);
        }
    };
    switch (g.draw(17))
    {
        case 0: if (!s.empty()) { what += " -last"; s.pop_back(); } break;
        case 1: if (!s.empty()) { size_t p = pos(); what += strf(" -%zu", p); s.erase(s.begin() + (long)p); } break;
        case 2: { Var v = fill(g, any_info()); what += " +" + ref::var_text(v); s.store_variable(v); break; }
        case 3: { size_t p = g.draw(s.size() + 1); Var v = fill(g, any_info()); what += strf(" +%zu:", p) + ref::var_text(v); s.insert(s.begin() + (long)p, v); break; }
        case 4: if (s.size() > 1) { size_t p = pos(), q = pos(); what += strf(" %zu<->%zu", p, q); Var t(s[p]); s[p] = s[q]; s[q] = t; } break;
        case 5: if (!s.empty()) { size_t p = pos(); s[p] = fill(g, any_info()); what += strf(" %zu=", p) + ref::var_text(s[p]); } break;
        case 6: if (!s.empty()) { size_t p = pos(); if (WR_VAR_F(s[p].code()) == 0) { s[p] = fill(g, defs.other(g, s[p].info())); what += strf(" %zu=", p) + ref::var_text(s[p]); } } break;
        case 7: if (!s.empty()) { size_t p = pos(); if (WR_VAR_F(s[p].code()) == 0) { s[p] = fill(g, s[p].info()); what += strf(" %zu=", p) + ref::var_text(s[p]); } } break;
        case 8: if (!s.empty()) { size_t p = pos(); what += strf(" %zu=unset", p); s[p].unset(); } break;
        case 9: // attributes
            if (!s.empty())
            {
                size_t p = pos();
                static const unsigned y[] = { 2, 3, 50, 40, 41, 7 };
                code_t a = fxy(0, 33, g.pick(y));
                if (!m.tab->find(a)) break;
                Varinfo i = b.tables.btable->query(a);
                if (g.boolean()) i = defs.other(g, i);
                Var v = fill(g, i);
                what += strf(" %zu.attr ", p) + ref::var_text(v);
                s[p].seta(v);
            }
            break;
        case 10: // replication factors
        {
            std::vector<size_t> f;
            for (size_t i = 0; i < s.size(); ++i) if (WR_VAR_F(s[i].code()) == 0 && WR_VAR_X(s[i].code()) == 31) f.push_back(i);
            if (f.empty()) break;
            size_t p = g.pick(f);
            if (s[p].info()->imin > 0 || s[p].info()->imax < 0) break;
            s[p] = Var(s[p].info(), (int)g.draw(std::min(s[p].info()->imax, 7) + 1));
            what += strf(" %zu=", p) + ref::var_text(s[p]);
            break;
        }
        case 11: { b.obtain_subset((unsigned)b.subsets.size()); what += " +subset"; break; }
        case 12: case 13: // descriptors
        {
            auto n = fuzz::soup(g, *m.tab, 3);
            size_t p = g.draw(b.datadesc.size() + 1);
            what += strf(" desc %zu", p);
            switch (g.draw(4))
            {
                case 0: b.datadesc.insert(b.datadesc.begin() + (long)p, n.begin(), n.end()); for (auto c: n) what += "+" + model::codestr(c); break;
                case 1: if (p < b.datadesc.size()) { b.datadesc.erase(b.datadesc.begin() + (long)p); what += "-"; } break;
                case 2: if (p < b.datadesc.size()) { b.datadesc[p] = n[0]; what += "=" + model::codestr(n[0]); } break;
                case 3: b.datadesc.insert(b.datadesc.end(), n.begin(), n.end()); for (auto c: n) what += "+" + model::codestr(c); break;
            }
            break;
        }
        case 14: // bitmaps and character data
        {
            std::vector<size_t> f;
            for (size_t i = 0; i < s.size(); ++i) if (WR_VAR_F(s[i].code()) == 2) f.push_back(i);
            if (f.empty()) break;
            size_t p = g.pick(f);
            if (WR_VAR_X(s[p].code()) == 5)
            {
                std::string t = g.ascii(g.draw(WR_VAR_Y(s[p].code()) + 3));
                s[p] = Var(b.tables.get_chardata(fxy(2, 5, (unsigned)t.size()), (unsigned)t.size()), rtrim(t));
                what += strf(" %zu=", p) + quote(t);
                break;
            }
            std::string bits = s[p].isset() ? s[p].enqs() : "";
            switch (g.draw(3))
            {
                case 0: bits += "+"; break;
                case 1: if (bits.size() > 1) bits.pop_back(); break;
                case 2: if (!bits.empty()) { size_t k = g.draw(bits.size()); bits[k] = bits[k] == '+' ? '-' : '+'; } break;
            }
            if (bits.empty()) break;
            s[p] = Var(b.tables.get_bitmap(s[p].code(), bits), bits);
            what += strf(" %zu=", p) + bits;
            break;
        }
        case 15: b.edition_number = (uint8_t)g.draw(256); what += strf(" edition %u", b.edition_number); break;
        case 16:
            if (g.chance(1, 400)) { b.optional_section.assign(0xffffff - 8 + g.draw(16), 'x'); what += " huge optional section"; }
            else if (g.chance(1, 4000)) { if (s.size() < 20) while (b.subsets.size() < 65536) b.subsets.push_back(b.subsets[0]); what += " 65536 subsets"; }
            break;
    }
}

bool validates(const Bulletin& b, std::string* why)
{
    return attempt([&] {
        for (unsigned i = 0; i < b.subsets.size(); ++i)
        {
            bulletin::DDSValidator v(b, i);
            v.run();
        }
    }, why);
}

// Encoding, also when it fails, gives back the memory it takes
void check_leaks(Ctx& c, const Bulletin& b)
{
    if (!c.g.chance(1, 12)) return;
    size_t n = fuzz::leaked([&] { attempt([&] { b.encode(); }); validates(b, nullptr); });
    PBT_CHECK(!n, n << " bytes of memory are lost every time the bulletin is encoded");
    c.label("leaks");
}

// A bulletin as it should be, then with a variable that should not be there
void validator(Ctx& c, Bulletin& b, Varinfo other, const std::string& desc)
{
    Gen& g = c.g;
    std::string why, what;
    if (!validates(b, &why)) PBT_FAIL("a valid bulletin was rejected by the validator: " << why);
    Subset& s = b.subsets[g.draw(b.subsets.size())];
    if (s.empty()) throw Discard("nothing to change");
    if (g.boolean())
    {
        c.set_sample(what = " without the last variable");
        s.pop_back();
        if (validates(b, &why)) PBT_FAIL("the validator accepts a subset that lacks its last variable");
    } else {
        size_t p = g.draw(s.size());
        if (s[p].code() == other->code) throw Discard("the same variable");
        s[p] = fill(g, other);
        c.set_sample(what = strf(" with %zu=", p) + ref::var_text(s[p]));
        if (validates(b, &why)) PBT_FAIL("the validator accepts variable " << p << " replaced with " << ref::var_text(s[p]));
    }
    c.label("validator");
    c.nontrivial(desc + what);
}

void run_validator(Ctx& c)
{
    Gen& g = c.g;
    if (g.boolean())
    {
        refc::GenOpts o;
        o.small = g.boolean();
        refc::Message m = refc::gen_message(g, o);
        c.set_sample(m.describe());
        auto b = refc::build(m);
        validator(c, *b, b->tables.btable->query(g.boolean() ? g.pick(m.tab->nums)->code : g.pick(m.tab->strs)->code), m.describe());
    } else {
        ref::GenOpts o;
        o.for_encode = true;
        o.small = g.boolean();
        o.want_bitmaps = g.chance(1, 4);
        ref::Message m = ref::gen_message(g, o);
        c.set_sample(m.describe());
        auto b = ref::build(m);
        validator(c, *b, b->tables.btable->query(g.boolean() ? g.pick(m.tab->nums)->code : g.pick(m.tab->strs)->code), m.describe());
    }
}

// ------------------------------------------------------------------- CREX

void corrupt(Gen& g, const refc::Message& m, CrexBulletin& b, InfoDefs& defs, std::string& what)
{
    if (b.subsets.empty()) return;
    Subset& s = b.subsets[g.draw(b.subsets.size())];
    const refc::Tab& t = *m.tab;
    auto pos = [&] { return (size_t)g.draw(s.size()); };
    auto any_info = [&]() -> Varinfo { return b.tables.btable->query(g.boolean() ? g.pick(t.nums)->code : g.pick(t.strs)->code); };
    switch (g.draw(15))
    {
        case 0: if (!s.empty()) { what += " -last"; s.pop_back(); } break;
        case 1: if (!s.empty()) { size_t p = pos(); what += strf(" -%zu", p); s.erase(s.begin() + (long)p); } break;
        case 2: { Var v = fill(g, any_info()); what += " +" + ref::var_text(v); s.store_variable(v); break; }
        case 3: { size_t p = g.draw(s.size() + 1); Var v = fill(g, any_info()); what += strf(" +%zu:", p) + ref::var_text(v); s.insert(s.begin() + (long)p, v); break; }
        case 4: if (s.size() > 1) { size_t p = pos(), q = pos(); what += strf(" %zu<->%zu", p, q); Var t(s[p]); s[p] = s[q]; s[q] = t; } break;
        case 5: if (!s.empty()) { size_t p = pos(); s[p] = fill(g, any_info()); what += strf(" %zu=", p) + ref::var_text(s[p]); } break;
        case 6: case 7: if (!s.empty()) { size_t p = pos(); s[p] = fill(g, defs.crex(g, s[p].info())); what += strf(" %zu=", p) + ref::var_text(s[p]); } break;
        case 8: // strings that look like something else
        {
            std::vector<size_t> f;
            for (size_t i = 0; i < s.size(); ++i) if (s[i].info()->type == Vartype::String) f.push_back(i);
            if (f.empty()) break;
            size_t p = g.pick(f);
            unsigned len = s[p].info()->len;
            std::string v;
            switch (g.draw(6))
            {
                case 5: break;
                case 0: v = std::string(len, '/'); break;
                case 1: v = std::string(1 + g.draw(len), '/'); break;
                case 2: v = " " + std::string(len - 1, 'x'); break;
                case 3: v = std::string(len, '+'); break;
                case 4: v = "++\r\n7777"; v.resize(std::min<size_t>(v.size(), len)); break;
            }
            // Blanks at the end are padding
            while (!v.empty() && isspace(v.back())) v.pop_back();
            s[p].sets(v);
            what += strf(" %zu=", p) + ref::var_text(s[p]);
            break;
        }
        case 9: if (!s.empty()) { size_t p = pos(); what += strf(" %zu=unset", p); s[p].unset(); } break;
        case 10: // replication factors
        {
            std::vector<size_t> f;
            for (size_t i = 0; i < s.size(); ++i) if (WR_VAR_F(s[i].code()) == 0 && WR_VAR_X(s[i].code()) == 31) f.push_back(i);
            if (f.empty()) break;
            size_t p = g.pick(f);
            s[p] = Var(s[p].info(), (int)g.edgy(g.boolean() ? 0 : s[p].info()->imin, g.boolean() ? 5 : s[p].info()->imax));
            what += strf(" %zu=", p) + ref::var_text(s[p]);
            break;
        }
        case 11: { b.obtain_subset((unsigned)b.subsets.size()); what += " +subset"; break; }
        case 12: // descriptors
        {
            code_t n;
            switch (g.draw(6))
            {
                case 0: n = g.pick(t.nums)->code; break;
                case 1: n = g.pick(t.strs)->code; break;
                case 2: n = fxy(1, (unsigned)g.draw(4), (unsigned)g.draw(4)); break;
                case 3: n = fxy(0, 31, (unsigned)g.pick({ 0, 1, 2, 11, 12 })); break;
                case 4: n = t.seqs.empty() ? fxy(3, 1, 1) : g.pick(t.seqs); break;
                default: n = (code_t)g.draw(0x10000); if (model::F(n) == 2) n = fxy(0, 1, 1); break;
            }
            size_t p = g.draw(b.datadesc.size() + 1);
            what += strf(" desc %zu", p);
            switch (g.draw(3))
            {
                case 0: b.datadesc.insert(b.datadesc.begin() + (long)p, n); what += "+" + model::codestr(n); break;
                case 1: if (p < b.datadesc.size()) { b.datadesc.erase(b.datadesc.begin() + (long)p); what += "-"; } break;
                case 2: if (p < b.datadesc.size()) { b.datadesc[p] = n; what += "=" + model::codestr(n); } break;
            }
            break;
        }
        case 13:
            switch (g.draw(3))
            {
                case 0: b.edition_number = (uint8_t)g.draw(256); break;
                case 1: b.master_table_number = (uint8_t)g.draw(256); break;
                case 2: b.master_table_version_number = (uint8_t)g.draw(256); break;
            }
            what += strf(" T %u %u %u", b.master_table_number, b.edition_number, b.master_table_version_number);
            break;
        case 14: if (g.chance(1, 4)) { b.datadesc.clear(); what += " no descriptors"; } else if (g.boolean()) { b.subsets.clear(); what += " no subsets"; if (g.boolean()) b.obtain_subset(0); } break;
    }
}

void run_crex(Ctx& c)
{
    Gen& g = c.g;
    refc::GenOpts o;
    o.small = g.boolean();
    refc::Message m = refc::gen_message(g, o);
    InfoDefs defs;
    auto b = refc::build(m);
    std::string what;
    for (unsigned n = 1 + g.size(2); n; --n) corrupt(g, m, *b, defs, what);
    c.set_sample(m.describe() + what);
    for (size_t i = 0; i < b->datadesc.size(); ++i)
        if (WR_VAR_F(b->datadesc[i]) == 2) throw Discard("operators");
    unsigned vars = 0;
    for (auto& s: b->subsets) vars = std::max<unsigned>(vars, (unsigned)s.size());
    if (fuzz::expensive_template(b->datadesc, vars)) throw Discard("work out of proportion with the size of the message");
    std::string buf, why;
    bool ok = attempt([&] { buf = b->encode(); }, &why);
    check_leaks(c, *b);
    std::string vwhy;
    bool valid = validates(*b, &vwhy);
    PBT_CHECK(valid || !ok, "a bulletin that can be encoded was rejected by the validator: " << vwhy);
    if (!ok)
    {
        c.label("CREX rejected");
        c.nontrivial(m.describe() + what);
        c.set_sample(" rejected: " + why);
    } else {
        c.label("CREX accepted");
        c.nontrivial(buf);
        c.set_sample(" encoded: " + quote(buf, 1500));
        // Header fields have two digits
        std::string t = strf("T%02u%02u%02u A", b->master_table_number, b->edition_number, b->master_table_version_number);
        PBT_CHECK(t.size() == 9 && buf.find(t) < 12, "header " << t << " not found in " << quote(buf.substr(0, 40)));
        if (b->master_table_number || b->edition_number != m.tab->edition || b->master_table_version_number != m.tab->version) throw Discard("other tables");
        std::unique_ptr<CrexBulletin> d;
        if (!attempt([&] { d = CrexBulletin::decode(buf); }, &why)) PBT_FAIL("what was encoded does not decode: " << why);
        // Explicit replication factors can be written as implicit: they go,
        // also from the count of what is replicated
        const auto& dd = b->datadesc;
        auto goes = [&](size_t i) {
            code_t x = dd[i];
            return WR_VAR_F(x) == 0 && WR_VAR_X(x) == 31 && WR_VAR_Y(x) < 3 && i > 0 && WR_VAR_F(dd[i - 1]) == 1 && WR_VAR_Y(dd[i - 1]) == 0;
        };
        std::vector<Varcode> desc;
        bool gone = false;
        for (size_t i = 0; i < dd.size(); ++i)
        {
            if (goes(i)) { gone = true; continue; }
            unsigned n = WR_VAR_X(dd[i]);
            if (WR_VAR_F(dd[i]) == 1)
            {
                size_t from = i + 1;
                if (WR_VAR_Y(dd[i]) == 0 && from < dd.size() && WR_VAR_F(dd[from]) == 0 && WR_VAR_X(dd[from]) == 31) ++from;
                for (size_t j = from; j < dd.size() && j < from + WR_VAR_X(dd[i]); ++j)
                    if (goes(j)) --n;
            }
            desc.push_back(fxy(WR_VAR_F(dd[i]), n, WR_VAR_Y(dd[i])));
        }
        if (gone) c.label("explicit factor as implicit");
        if (gone && d->datadesc == dd) desc = dd;
        b->datadesc = desc;
        for (auto& s: b->subsets)
            for (auto& v: s)
            {
                code_t x = v.code();
                if (WR_VAR_F(x) == 0 && WR_VAR_X(x) == 31 && WR_VAR_Y(x) < 3 && v.isset()) v = Var(b->tables.btable->query(fxy(0, 31, 12)), v.enqi());
            }
        for (auto& s: d->subsets)
            for (auto& v: s)
            {
                code_t x = v.code();
                if (WR_VAR_F(x) == 0 && WR_VAR_X(x) == 31 && WR_VAR_Y(x) < 3 && v.isset()) v = Var(b->tables.btable->query(fxy(0, 31, 12)), v.enqi());
            }
        PBT_CHECK(d->data_category == b->data_category && d->data_subcategory == b->data_subcategory && d->has_check_digit == b->has_check_digit, "header fields differ");
        compare(*b, *d);
    }
}

void run_bufr(Ctx& c)
{
    Gen& g = c.g;
    ref::GenOpts o;
    o.for_encode = true;
    o.small = g.chance(1, 2);
    o.want_bitmaps = g.chance(1, 4);
    ref::Message m = ref::gen_message(g, o);
    InfoDefs defs;
    auto b = ref::build(m);
    std::string what;
    for (unsigned n = 1 + g.size(3); n; --n) corrupt(g, m, *b, defs, what);
    c.set_sample(m.describe() + what);
    // Template operators that apply to data that was built for others are the
    // decoder's to judge, but not when they take forever
    unsigned vars = 0;
    for (auto& s: b->subsets) vars = std::max<unsigned>(vars, (unsigned)s.size());
    if (fuzz::expensive_template(b->datadesc, vars)) throw Discard("work out of proportion with the size of the message");
    // Only these are replication factors: how others show their value is not specified
    for (size_t i = 0; i + 1 < b->datadesc.size(); ++i)
    {
        code_t a = b->datadesc[i], f = b->datadesc[i + 1];
        if (WR_VAR_F(a) != 1 || WR_VAR_Y(a) != 0) continue;
        unsigned y = WR_VAR_Y(f);
        if (WR_VAR_F(f) != 0 || WR_VAR_X(f) != 31 || !(y <= 2 || y == 11 || y == 12))
            throw Discard("replication factor that is not one");
    }
    std::string buf, why;
    bool ok = attempt([&] { buf = b->encode(); }, &why);
    check_leaks(c, *b);
    if (!ok)
    {
        c.label("rejected");
        c.nontrivial(m.describe() + what);
        c.set_sample(" rejected: " + why);
    } else {
        c.label("accepted");
        if (!what.empty()) c.nontrivial(buf);
        std::unique_ptr<BufrBulletin> d;
        if (!attempt([&] { d = BufrBulletin::decode(buf); }, &why)) PBT_FAIL("what was encoded does not decode: " << why);
        compare(*b, *d);
    }
    // The validator agrees
    std::string vwhy;
    bool valid = validates(*b, &vwhy);
    PBT_CHECK(valid || !ok, "a bulletin that can be encoded was rejected by the validator: " << vwhy);
    if (valid && !ok) c.label("rejected by the encoder only");
}

// A single field that something almost fits, or just does not
void run_limits(Ctx& c)
{
    Gen& g = c.g;
    static const uint8_t versions[] = { 13, 14, 15, 17, 19, 24 };
    std::unique_ptr<_Varinfo> def(new _Varinfo), adef(new _Varinfo);
    auto b = BufrBulletin::create();
    b->edition_number = 4;
    b->master_table_version_number = g.pick(versions);
    b->rep_year = 2020; b->rep_month = 1; b->rep_day = 1;
    b->load_tables();
    static std::map<std::string, std::pair<std::vector<code_t>, std::vector<code_t>>> all;
    auto& lists = all[b->tables.btable->path().string()];
    if (lists.first.empty())
        b->tables.btable->iterate([&](Varinfo i) {
            if (WR_VAR_X(i->code) == 31 || i->bit_len == 0) return true;
            if (i->type == Vartype::String) lists.second.push_back(i->code);
            else if (i->type != Vartype::Binary && strcmp(i->unit, "CODE TABLE") && strcmp(i->unit, "FLAG TABLE") && i->bit_len < 29) lists.first.push_back(i->code);
            return true;
        });
    Varinfo num = b->tables.btable->query(g.pick(lists.first));
    Varinfo str = b->tables.btable->query(g.pick(lists.second));
    std::string what;
    int near = (int)g.range(-2, 2);
    code_t attr = 0;
    unsigned attr_bits = 0;
    auto& dd = b->datadesc;
    Subset& s = b->obtain_subset(0);
    unsigned before = (unsigned)g.draw(3), after = (unsigned)g.draw(3);
    auto others = [&](unsigned n) {
        for (unsigned i = 0; i < n; ++i)
        {
            Varinfo o = b->tables.btable->query(fxy(0, 4, 1 + (unsigned)g.draw(5)));
            dd.push_back(o->code);
            s.store_variable(fill(g, o));
        }
    };
    others(before);
    switch (g.draw(5))
    {
        case 0: // reference value
        {
            unsigned bits = (unsigned)g.range(2, 31);
            int64_t lim = ((int64_t)1 << (bits - 1)) + near;
            int64_t r = std::min<int64_t>(lim, 1000000000);
            if (g.boolean()) r = -r;
            if (g.chance(1, 4)) r = -g.draw(1000);
            def->set_bufr(num->code, num->desc, num->unit, num->scale, 10, (int)r, (int)num->bit_len);
            Var v(def.get());
            int64_t raw = (int64_t)g.edgy(0, ((int64_t)1 << num->bit_len) - 2);
            v.seti((int)(r + raw));
            for (auto x: { fxy(2, 3, bits), num->code, fxy(2, 3, 255) }) dd.push_back(x);
            for (unsigned n = 1 + (unsigned)g.draw(2); n; --n) { dd.push_back(num->code); s.store_variable(v); }
            dd.push_back(fxy(2, 3, 0));
            what = strf("reference value %lld in %u bits for %s", (long long)r, bits, ref::var_text(v).c_str());
            break;
        }
        case 1: // width and scale
        {
            int dw = (int)g.range(-3, 3), ds = g.boolean() ? 0 : (int)g.range(-2, 2);
            if ((int)num->bit_len + dw < 2) dw = 0;
            int scale = num->scale + ds;
            def->set_bufr(num->code, num->desc, num->unit, scale, 10, -2000000000, 31);
            // Limits of the field
            int64_t raw = num->bit_ref + (g.boolean() ? near : ((int64_t)1 << (num->bit_len + dw)) - 2 + near);
            if (raw > 1000000000 || raw < -1000000000) throw Discard("large");
            Var v(def.get(), (int)raw);
            if (dw) dd.push_back(fxy(2, 1, (unsigned)(128 + dw)));
            if (ds) dd.push_back(fxy(2, 2, (unsigned)(128 + ds)));
            dd.push_back(num->code);
            s.store_variable(v);
            if (ds) dd.push_back(fxy(2, 2, 0));
            if (dw) dd.push_back(fxy(2, 1, 0));
            what = strf("width %+d scale %+d for ", dw, ds) + ref::var_text(v);
            break;
        }
        case 2: // length of strings
        {
            unsigned y = (unsigned)g.edgy(1, 40);
            unsigned len = (unsigned)std::max(1, (int)y + near);
            def->set_string(str->code, str->desc, 60);
            std::string t = g.ascii(len - 1) + "x";
            if (t[0] == ' ') t[0] = 'y';
            Var v(def.get(), t);
            for (auto x: { fxy(2, 8, y), str->code, fxy(2, 8, 0) }) dd.push_back(x);
            s.store_variable(v);
            what = strf("%u characters for ", y) + ref::var_text(v);
            break;
        }
        case 3: // associated fields
        {
            static const std::pair<unsigned, code_t> sigs[] = { {1, fxy(0, 33, 2)}, {2, fxy(0, 33, 3)}, {7, fxy(0, 33, 40)} };
            auto sig = g.pick(sigs);
            unsigned bits = sig.first == 7 ? (unsigned)g.range(1, 10) : sig.first;
            if (!b->tables.btable->contains(sig.second)) throw Discard("attribute not in table");
            Varinfo ai = b->tables.btable->query(sig.second);
            adef->set_bufr(ai->code, ai->desc, ai->unit, 0, 6, -100, 17);
            Var v = fill(g, num);
            int64_t av = g.boolean() ? near : ((int64_t)1 << bits) - 1 + near;
            Var a(adef.get(), (int)av);
            v.seta(a);
            for (auto x: { fxy(2, 4, bits), fxy(0, 31, 21), num->code, fxy(2, 4, 0) }) dd.push_back(x);
            s.store_variable(Var(b->tables.btable->query(fxy(0, 31, 21)), (int)sig.first));
            s.store_variable(v);
            attr = sig.second; attr_bits = bits;
            what = strf("associated field of %u bits for ", bits) + ref::var_text(v) + " attribute " + ref::var_text(a);
            break;
        }
        case 4: // character data
        {
            unsigned y = (unsigned)g.edgy(1, 40);
            unsigned len = (unsigned)std::max(1, (int)y + near);
            def->set_string(fxy(2, 5, y), "CHARACTER DATA", 60);
            std::string t = g.ascii(len - 1) + "x";
            if (t[0] == ' ') t[0] = 'y';
            Var v(def.get(), t);
            dd.push_back(fxy(2, 5, y));
            s.store_variable(v);
            what = strf("%u characters of data for ", y) + ref::var_text(v);
            break;
        }
    }
    others(after);
    c.set_sample(what);
    c.label("limits");
    std::string buf, why;
    bool ok = attempt([&] { buf = b->encode(); }, &why);
    c.nontrivial(what);
    c.set_sample(ok ? " encoded" : " rejected: " + why);
    if (ok)
    {
        std::unique_ptr<BufrBulletin> d;
        if (!attempt([&] { d = BufrBulletin::decode(buf); }, &why)) PBT_FAIL("what was encoded does not decode: " << why);
        compare(*b, *d);
        if (attr)
        {
            const Var* o = b->subsets[0][before + 1].enqa(attr);
            const Var* x = d->subsets[0][before + 1].enqa(attr);
            if (!x || !x->isset())
            {
                // All bits set can mean that there is none
                PBT_CHECK(o->enqi() == (1 << attr_bits) - 1, "attribute " << ref::var_text(*o) << " was lost");
            } else
                PBT_CHECK(says(*o, *x), "attribute encoded as " << ref::var_text(*o) << " decoded " << ref::var_text(*x));
        }
    }
    std::string vwhy;
    bool valid = validates(*b, &vwhy);
    PBT_CHECK(valid || !ok, "a bulletin that can be encoded was rejected by the validator: " << vwhy);
}

void run(Ctx& c)
{
    c.evaluations = 1;
    if (c.g.chance(1, 8)) run_validator(c);
    else if (c.g.chance(1, 6)) run_limits(c);
    else if (c.g.chance(1, 3)) run_crex(c);
    else run_bufr(c);
}

void init() { model::init_tables(); refc::tabs(); }

Register r({"C20", "BUFR and CREX bulletins that match their descriptors, then 1 to 4 random inconsistencies (missing, extra, swapped, wrong or redefined variables, wrong factors, bitmaps, attributes, descriptors, header), and single fields with a reference value, width, scale, string, associated field or character data at most 2 from the limit; non trivial: at least one change; distinct: encoded bytes, or rejected case",
        run, init, 120000, 4000000, true});
}
