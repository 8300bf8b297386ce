#include "refcrex.h"
#include <wreport/tables.h>
#include <wreport/dtable.h>
#include <wreport/subset.h>
#include <climits>

using namespace wreport;
using namespace pbt;
using model::BEntry;
using model::fxy;
using model::codestr;

namespace refc {

namespace {
struct Unsupported {};
const unsigned MAX_VARS = 400;

bool usable(const BEntry& e)
{
    if (!e.has_crex || !e.clen) return false;
    if (is_string(e)) return true;
    return e.clen <= 10 && abs(e.cscale) <= 10;
}

bool is_factor(code_t c) { return c == fxy(0, 31, 1) || c == fxy(0, 31, 2) || c == fxy(0, 31, 11) || c == fxy(0, 31, 12); }

unsigned list_size(const Tab& t, const std::vector<code_t>& l, unsigned depth)
{
    if (depth > 20) throw Unsupported();
    unsigned size = 0;
    for (size_t i = 0; i < l.size(); ++i)
    {
        code_t c = l[i];
        switch (model::F(c))
        {
            case 0: {
                const BEntry* e = t.find(c);
                if (!e || !usable(*e) || model::X(c) == 31) throw Unsupported();
                ++size;
                break;
            }
            case 1: {
                size_t n = model::X(c), count = model::Y(c);
                if (!n) throw Unsupported();
                if (!count)
                {
                    count = 1; ++size;
                    if (i + 1 < l.size() && model::F(l[i + 1]) == 0 && model::X(l[i + 1]) == 31)
                    {
                        ++i;
                        if (!is_factor(l[i])) throw Unsupported();
                    }
                    if (!t.find(fxy(0, 31, 12))) throw Unsupported();
                }
                if (i + n >= l.size()) throw Unsupported();
                size += (unsigned)count * list_size(t, std::vector<code_t>(l.begin() + i + 1, l.begin() + i + 1 + n), depth + 1);
                i += n;
                break;
            }
            case 2: throw Unsupported();
            case 3: {
                auto d = t.d.find(c);
                if (d == t.d.end()) throw Unsupported();
                size += list_size(t, d->second, depth + 1);
                break;
            }
        }
        if (size > MAX_VARS) throw Unsupported();
    }
    return size;
}

std::unique_ptr<CrexBulletin> empty(unsigned edition, unsigned version)
{
    auto b = CrexBulletin::create();
    b->clear();
    b->master_table_number = 0;
    b->edition_number = (uint8_t)edition;
    b->master_table_version_number = (uint8_t)version;
    b->master_table_version_number_bufr = 0;
    return b;
}
}

const std::vector<Tab>& tabs()
{
    static std::vector<Tab>* res = nullptr;
    if (res) return *res;
    res = new std::vector<Tab>;
    static const unsigned combos[][2] = { {1, 1}, {1, 3}, {2, 3}, {1, 2}, {1, 99}, {2, 19}, {2, 0} };
    res->reserve(10);
    for (const auto& c: combos)
    {
        std::string bp, dp;
        try {
            auto b = empty(c[0], c[1]);
            b->load_tables();
            bp = b->tables.btable->path();
            dp = b->tables.dtable->path();
        } catch (wreport::error&) {
            continue;
        }
        res->emplace_back();
        Tab& t = res->back();
        t.edition = c[0]; t.version = c[1];
        t.b = model::load_b(bp);
        t.d = model::load_d(dp);
        for (const auto& i: t.b)
        {
            if (!usable(i.second) || model::X(i.first) == 31) continue;
            (is_string(i.second) ? t.strs : t.nums).push_back(&i.second);
        }
        for (const auto& i: t.d)
        {
            try {
                if (list_size(t, i.second, 0) <= 120) t.seqs.push_back(i.first);
            } catch (Unsupported&) {
            }
        }
    }
    return *res;
}

int64_t max_value(unsigned width)
{
    int64_t m = 1;
    for (unsigned i = 0; i < width && i < 18; ++i) m *= 10;
    return m - 1;
}

namespace {
struct Maker
{
    Gen& g;
    const Tab& t;
    Message& m;
    const GenOpts& o;

    code_t element()
    {
        return (g.chance(1, 4) ? g.pick(t.strs) : g.pick(t.nums))->code;
    }

    // n descriptors at the same level, counting what replications apply to
    void list(std::vector<code_t>& out, unsigned n, unsigned depth)
    {
        for (unsigned i = 0; i < n; )
        {
            unsigned k = (unsigned)g.draw(10);
            if (k < 7 || depth > 2 || (k < 8 && t.seqs.empty())) { out.push_back(element()); ++i; continue; }
            if (k == 7) { out.push_back(g.pick(t.seqs)); ++m.n_seq; ++i; continue; }
            // A replication and its body must fit in what is left
            if (depth > 0 && n - i < 2) { out.push_back(element()); ++i; continue; }
            bool delayed = g.boolean();
            bool explicit_factor = delayed && g.chance(1, 3);
            unsigned room = depth > 0 ? n - i - 1 : 4;
            if (explicit_factor && depth > 0) { if (room < 2) explicit_factor = false; else --room; }
            unsigned len = 1 + (unsigned)g.draw(std::min(room, 4u));
            out.push_back(fxy(1, len, delayed ? 0 : 1 + (unsigned)g.size(o.small ? 2 : 4)));
            i += 1;
            if (explicit_factor) { out.push_back(g.boolean() ? fxy(0, 31, 12) : fxy(0, 31, 11)); ++m.n_explicit; i += 1; }
            list(out, len, depth + 1);
            i += len;
            ++m.n_rep;
        }
    }

    void value(CVar& v)
    {
        v.set = !g.chance(1, 6);
        if (!v.set) { ++m.n_missing; return; }
        if (v.str)
        {
            ++m.n_str;
            unsigned len = g.boolean() ? v.width : 1 + (unsigned)g.draw(v.width);
            for (unsigned i = 0; i < len; ++i)
                v.s += (char)(g.chance(1, 6) ? (int)"/+7E -\"'"[g.draw(8)] : (int)g.range(33, 126));
            // With check digits strings can begin with a space, or be empty
            if (m.check && g.chance(1, 12)) v.s[0] = ' ';
            else if (v.s[0] == ' ') v.s[0] = '/';
            if (v.s.back() == ' ') v.s.back() = '+';
            // All slashes is a missing value
            if (v.s.find_first_not_of('/') == std::string::npos) v.s.back() = 'A';
            if (m.check && g.chance(1, 12)) v.s.clear();
            return;
        }
        int64_t hi = max_value(v.width), lo = -hi;
        if (v.width >= 10 && !o.wide) { lo = INT_MIN; hi = INT_MAX; }
        else if (v.width < 10) --hi;
        v.val = g.edgy(lo, hi);
        if (v.val < 0) ++m.n_neg;
        if (v.val > INT_MAX || v.val < INT_MIN) ++m.n_wide;
    }

    void expand(const std::vector<code_t>& l, std::vector<CVar>& out)
    {
        for (size_t i = 0; i < l.size(); ++i)
        {
            if (out.size() > 11000) throw Unsupported();
            code_t c = l[i];
            switch (model::F(c))
            {
                case 0: {
                    const BEntry* e = t.find(c);
                    CVar v;
                    v.code = c;
                    v.str = is_string(*e);
                    v.width = e->clen;
                    value(v);
                    out.push_back(v);
                    break;
                }
                case 1: {
                    size_t n = model::X(c), count = model::Y(c);
                    if (!count)
                    {
                        CVar f;
                        f.code = fxy(0, 31, 12);
                        f.factor = true;
                        f.width = 4;
                        f.set = true;
                        if (i + 1 < l.size() && model::F(l[i + 1]) == 0 && model::X(l[i + 1]) == 31) f.code = l[++i];
                        count = g.chance(1, 4) ? 0 : g.size(o.small ? 2 : 5);
                        // Sometimes a lot of repetitions of a single element
                        if (n == 1 && model::F(l[i + 1]) == 0 && g.chance(1, 25)) count = g.chance(1, 20) ? g.range(1000, 9998) : g.range(100, 300);
                        if (const BEntry* fe = t.find(f.code)) count = std::min<size_t>(count, (size_t)max_value(fe->clen) - 1);
                        f.val = (int64_t)count;
                        ++m.n_delayed;
                        out.push_back(f);
                    }
                    std::vector<code_t> body(l.begin() + i + 1, l.begin() + i + 1 + n);
                    for (size_t k = 0; k < count; ++k) expand(body, out);
                    i += n;
                    break;
                }
                case 3: expand(t.d.at(c), out); break;
            }
        }
    }
};
}

Message gen_message(Gen& g, const GenOpts& o)
{
    Message m;
    m.tab = &g.pick(tabs());
    m.cat = (unsigned)g.edgy(0, 255);
    m.subcat = g.boolean() ? 255 : (unsigned)g.edgy(0, 254);
    m.check = g.boolean();
    Maker mk{g, *m.tab, m, o};
    unsigned n = 1 + (unsigned)g.size(o.small ? 4 : 12);
    mk.list(m.desc, n, 0);
    unsigned subsets = 1 + (unsigned)g.size(3);
    try {
        for (unsigned i = 0; i < subsets; ++i)
        {
            m.subsets.emplace_back();
            mk.expand(m.desc, m.subsets.back());
        }
    } catch (Unsupported&) {
        throw Discard("too many variables");
    }
    return m;
}

std::string letter_code(code_t c)
{
    return strf("%c%02u%03u", "BRCD"[model::F(c)], model::X(c), model::Y(c));
}

std::string CVar::show() const
{
    if (!set) return codestr(code) + "=missing";
    if (str) return codestr(code) + "=" + quote(s);
    return codestr(code) + strf("=%lld", (long long)val);
}

std::string Message::describe() const
{
    std::string r = strf("CREX edition %u version %u A%u/%u %s desc", tab->edition, tab->version, cat, subcat, check ? "check digits" : "");
    for (auto c: desc) r += " " + letter_code(c);
    for (size_t i = 0; i < subsets.size(); ++i)
    {
        r += strf("; subset %zu:", i);
        for (const auto& v: subsets[i]) { r += " " + v.show(); if (r.size() > 1500) return r + "..."; }
    }
    return r;
}

std::string write(const Message& m, Gen& g)
{
    bool plain = g.boolean();
    auto sep = [&]() -> std::string {
        if (plain) return " ";
        static const char* s[] = { " ", "\r\r\n", "\n", "  ", "\r\n ", " \r\r\n", "\t" };
        return g.pick(s);
    };
    auto opt = [&]() -> std::string { return !plain && g.chance(1, 3) ? sep() : ""; };
    std::string r = "CREX++" + (plain ? std::string("\r\r\n") : sep());
    r += strf("T00%02u%02u", m.tab->edition, m.tab->version) + sep();
    r += strf("A%03u", m.cat);
    if (m.subcat != 255) r += strf("%03u", m.subcat);
    for (auto c: m.desc) r += sep() + letter_code(c);
    if (m.check) r += sep() + "E";
    r += opt() + "++";
    // The data can start on the same line
    r += sep();
    unsigned digit = 1;
    for (size_t s = 0; s < m.subsets.size(); ++s)
    {
        if (s) r += "+" + sep();
        bool first = true;
        for (const auto& v: m.subsets[s])
        {
            if (!first) r += sep();
            first = false;
            if (m.check) { r += (char)('0' + digit); digit = (digit + 1) % 10; }
            if (!v.set) r += std::string(v.width, '/');
            else if (v.str) r += v.s + std::string(v.width - v.s.size(), ' ');
            else
            {
                std::string n = strf("%lld", (long long)(v.val < 0 ? -v.val : v.val));
                r += (v.val < 0 ? "-" : "") + std::string(v.width - n.size(), '0') + n;
            }
        }
        r += opt();
    }
    r += "++" + (plain ? std::string("\r\r\n") : sep());
    if (g.chance(1, 4))
    {
        r += "SUPP " + g.ascii(g.draw(12));
        for (size_t p; (p = r.find('+', r.rfind("SUPP"))) != std::string::npos; ) r[p] = '-';
        r += "++" + (plain ? std::string("\r\r\n") : sep());
    }
    r += "7777";
    if (g.boolean()) r += "\r\r\n";
    return r;
}

void check_text(const Message& m, const std::string& text)
{
    size_t p = 0;
    auto where = [&] { return strf(" at position %zu of ", p) + quote(text, 1500); };
    auto lit = [&](const std::string& s, const char* what) {
        if (text.compare(p, s.size(), s) != 0) throw Fail(strf("%s: ", what) + quote(s) + " expected" + where());
        p += s.size();
    };
    auto ws = [&](bool needed, const char* what) {
        size_t q = p;
        while (p < text.size() && strchr(" \r\n", text[p])) ++p;
        if (needed && p == q) throw Fail(std::string("separator expected before ") + what + where());
    };
    lit("CREX++", "section 0");
    ws(true, "section 1");
    lit(strf("T00%02u%02u", m.tab->edition, m.tab->version), "tables");
    ws(true, "category");
    lit(strf("A%03u", m.cat), "category");
    if (m.subcat != 255) lit(strf("%03u", m.subcat), "subcategory");
    for (auto c: m.desc) { ws(true, "descriptor"); lit(letter_code(c), "descriptor"); }
    if (m.check) { ws(true, "check digit indicator"); lit("E", "check digit indicator"); }
    ws(false, "");
    lit("++", "end of section 1");
    unsigned digit = 1;
    for (size_t s = 0; s < m.subsets.size(); ++s)
    {
        if (s) { ws(false, ""); lit("+", "end of subset"); }
        for (size_t i = 0; i < m.subsets[s].size(); ++i)
        {
            const CVar& v = m.subsets[s][i];
            std::string what = strf("group %zu of subset %zu (", i, s) + v.show() + ")";
            ws(true, what.c_str());
            if (m.check) { lit(std::string(1, (char)('0' + digit)), ("check digit of " + what).c_str()); digit = (digit + 1) % 10; }
            std::string exp;
            if (!v.set) exp = std::string(v.width, '/');
            else if (v.str) exp = v.s + std::string(v.width - v.s.size(), ' ');
            else
            {
                std::string n = strf("%lld", (long long)(v.val < 0 ? -v.val : v.val));
                exp = (v.val < 0 ? "-" : "") + std::string(v.width - n.size(), '0') + n;
            }
            lit(exp, what.c_str());
        }
    }
    ws(false, "");
    lit("++", "end of section 2");
    ws(true, "end section");
    lit("7777", "end section");
    ws(false, "");
    if (p != text.size()) throw Fail("text after the end section" + where());
}

std::unique_ptr<CrexBulletin> build(const Message& m)
{
    auto b = empty(m.tab->edition, m.tab->version);
    b->data_category = (uint8_t)m.cat;
    b->data_subcategory = (uint8_t)m.subcat;
    b->has_check_digit = m.check;
    b->load_tables();
    b->datadesc.assign(m.desc.begin(), m.desc.end());
    for (size_t i = 0; i < m.subsets.size(); ++i)
    {
        Subset& s = b->obtain_subset((unsigned)i);
        for (const auto& v: m.subsets[i])
        {
            if (!v.set) s.store_variable_undef(v.code);
            else if (v.str) s.store_variable_c(v.code, v.s.c_str());
            else s.store_variable_i(v.code, (int)v.val);
        }
    }
    return b;
}

void compare(const Message& m, const CrexBulletin& b, const char* what)
{
    auto eq = [&](const char* n, unsigned a, unsigned e) {
        if (a != e) throw Fail(strf("%s: %s is %u instead of %u", what, n, a, e));
    };
    eq("master table number", b.master_table_number, 0);
    eq("edition", b.edition_number, m.tab->edition);
    eq("table version", b.master_table_version_number, m.tab->version);
    eq("category", b.data_category, m.cat);
    eq("subcategory", b.data_subcategory, m.subcat);
    eq("check digit flag", b.has_check_digit, m.check);
    eq("number of descriptors", (unsigned)b.datadesc.size(), (unsigned)m.desc.size());
    for (size_t i = 0; i < m.desc.size(); ++i)
        eq(strf("descriptor %zu", i).c_str(), b.datadesc[i], m.desc[i]);
    eq("number of subsets", (unsigned)b.subsets.size(), (unsigned)m.subsets.size());
    for (size_t i = 0; i < m.subsets.size(); ++i)
    {
        const Subset& s = b.subset((unsigned)i);
        for (size_t j = 0; j < std::min(s.size(), m.subsets[i].size()); ++j)
        {
            const CVar& v = m.subsets[i][j];
            const Var& x = s[j];
            std::string w = strf("%s: variable %zu of subset %zu: ", what, j, i);
            if (x.code() != v.code) throw Fail(w + codestr(x.code()) + " instead of " + v.show());
            const BEntry* e = m.tab->find(v.code);
            if (x.info()->scale != e->cscale || x.info()->len != e->clen || e->cunit != x.info()->unit) throw Fail(w + "has not the definition of the CREX table");
            if (x.isset() != v.set) throw Fail(w + (x.isset() ? std::string("is ") + x.enqc() : "is unset") + ", " + v.show() + " expected");
            if (!v.set) continue;
            if (v.str)
            {
                if (v.s != x.enqc()) throw Fail(w + quote(x.enqc()) + " instead of " + v.show());
            } else {
                if (x.enqi() != v.val) throw Fail(w + strf("%d", x.enqi()) + " instead of " + v.show());
            }
            if (x.next_attr()) throw Fail(w + "has attributes");
        }
        eq(strf("number of variables of subset %zu", i).c_str(), (unsigned)s.size(), (unsigned)m.subsets[i].size());
    }
}

}
