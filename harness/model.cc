#include "model.h"
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <dirent.h>
#include <fstream>
#include <sstream>

using namespace wreport;

namespace model {

std::string codestr(code_t c)
{
    return pbt::strf("%c%02u%03u", "BRCD"[F(c)], X(c), Y(c));
}

static std::string rstrip(std::string s)
{
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    return s;
}

static long num(const std::string& s)
{
    // Number with optional spaces before it and after its sign
    std::string t;
    for (char c: s)
    {
        if (c == ' ' && (t.empty() || t == "-")) continue;
        if (c == '-' && t.empty()) { t += c; continue; }
        if (c < '0' || c > '9') break;
        t += c;
    }
    return t.empty() || t == "-" ? 0 : atol(t.c_str());
}

static std::string norm_unit(const std::string& u)
{
    std::string a;
    for (char c: u) if (c != ' ') a += c;
    if (a.compare(0, 9, "CODETABLE") == 0) return "CODE TABLE";
    if (a.compare(0, 9, "FLAGTABLE") == 0) return "FLAG TABLE";
    return u;
}

BTable load_b(const std::string& path)
{
    BTable res;
    std::ifstream in(path);
    std::string l;
    while (std::getline(in, l))
    {
        BEntry e;
        unsigned v = (unsigned)atoi(l.substr(2, 5).c_str());
        e.code = fxy(0, v / 1000, v % 1000);
        e.desc = rstrip(l.substr(8, 63));
        e.unit = norm_unit(rstrip(l.substr(73, 23)));
        e.scale = (int)num(l.substr(98));
        e.ref = (int)num(l.substr(102));
        e.bits = (unsigned)num(l.substr(115));
        if (l.size() >= 156)
        {
            e.has_crex = true;
            e.cunit = norm_unit(rstrip(l.substr(119, 23)));
            e.cscale = (int)num(l.substr(143));
            e.clen = (unsigned)num(l.substr(149));
        }
        res[e.code] = e;
    }
    return res;
}

static code_t parse_code(const std::string& s)
{
    unsigned f = 0;
    switch (s[0])
    {
        case 'R': case '1': f = 1; break;
        case 'C': case '2': f = 2; break;
        case 'D': case '3': f = 3; break;
    }
    unsigned v = (unsigned)atoi(s.substr(1, 5).c_str());
    return fxy(f, v / 1000, v % 1000);
}

DTable load_d(const std::string& path)
{
    DTable res;
    std::ifstream in(path);
    std::string l;
    code_t cur = 0;
    while (std::getline(in, l))
    {
        if (l.size() > 1 && (l[1] == 'D' || l[1] == '3'))
        {
            // The count can have no space before it
            std::istringstream s(l.substr(7));
            std::string b, c;
            s >> b >> c;
            cur = parse_code(l.substr(1, 6));
            res[cur].clear();
            res[cur].push_back(parse_code(c));
        } else {
            std::istringstream s(l);
            std::string a;
            s >> a;
            if (a.size() < 6) throw std::runtime_error("bad line in " + path + ": " + l);
            res[cur].push_back(parse_code(a));
        }
    }
    return res;
}

bool expand_d(const DTable& t, code_t code, std::vector<code_t>& out, unsigned depth)
{
    if (F(code) != 3) { out.push_back(code); return true; }
    if (depth > 50) return false;
    auto i = t.find(code);
    if (i == t.end()) return false;
    for (code_t c: i->second)
        if (!expand_d(t, c, out, depth + 1)) return false;
    return true;
}

std::string tables_dir() { return std::string(WR_REPO) + "/tables"; }

std::vector<std::string> list_tables(char letter)
{
    std::vector<std::string> res;
    DIR* d = opendir(tables_dir().c_str());
    if (!d) return res;
    while (dirent* e = readdir(d))
    {
        std::string n = e->d_name;
        if (n.size() > 5 && n[0] == letter && n.compare(n.size() - 4, 4, ".txt") == 0)
            res.push_back(n.substr(0, n.size() - 4));
    }
    closedir(d);
    std::sort(res.begin(), res.end());
    return res;
}

static int64_t p10(unsigned n)
{
    int64_t r = 1;
    while (n--) r *= 10;
    return r;
}

void range(unsigned x, unsigned len, int ref, unsigned bits, int64_t& imin, int64_t& imax)
{
    if (len >= 10)
    {
        imin = INT_MIN;
        imax = INT_MAX;
        return;
    }
    imin = -(p10(len) - 1);
    imax = p10(len) - 2;
    if (bits)
    {
        int64_t bmin = ref;
        // All ones is the missing value, except for replication factors
        int64_t bmax = ((int64_t)1 << bits) - 1 + ref - (x == 31 ? 0 : 1);
        imin = std::max(imin, bmin);
        imax = std::min(imax, bmax);
    }
}

unsigned digits(unsigned bits)
{
    // Digits of 2^bits - 1, that are also enough for 2^bits when it is not the
    // power of ten it can never be
    if (bits == 0) return 0;
    uint64_t v = bits >= 63 ? UINT64_MAX : ((uint64_t)1 << bits) - 1;
    unsigned res = 0;
    while (v) { ++res; v /= 10; }
    return res;
}

long double scaled(int64_t raw, int scale)
{
    long double f = 1;
    for (int i = 0; i < abs(scale); ++i) f *= 10;
    return scale >= 0 ? (long double)raw / f : (long double)raw * f;
}

std::string decimal_text(int64_t raw, int scale)
{
    std::string d = std::to_string(raw < 0 ? -(uint64_t)raw : (uint64_t)raw);
    if (scale <= 0)
    {
        if (raw) d += std::string((size_t)-scale, '0');
    } else {
        if (d.size() <= (size_t)scale) d = std::string((size_t)scale + 1 - d.size(), '0') + d;
        d.insert(d.size() - (size_t)scale, ".");
    }
    return (raw < 0 ? "-" : "") + d;
}

Err caught(const std::function<void()>& f, std::string* msg)
{
    try {
        f();
        return E_NONE;
    } catch (wreport::error& e) {
        if (msg) *msg = e.what();
        switch (e.code())
        {
            case WR_ERR_NOTFOUND: return E_NOTFOUND;
            case WR_ERR_TYPE: return E_TYPE;
            case WR_ERR_ALLOC: return E_ALLOC;
            case WR_ERR_ODBC: return E_ODBC;
            case WR_ERR_HANDLES: return E_HANDLES;
            case WR_ERR_TOOLONG: return E_TOOLONG;
            case WR_ERR_SYSTEM: return E_SYSTEM;
            case WR_ERR_CONSISTENCY: return E_CONSISTENCY;
            case WR_ERR_PARSE: return E_PARSE;
            case WR_ERR_WRITE: return E_WRITE;
            case WR_ERR_REGEX: return E_REGEXP;
            case WR_ERR_UNIMPLEMENTED: return E_UNIMPL;
            case WR_ERR_DOMAIN: return E_DOMAIN;
            default: return E_OTHER;
        }
    }
}

const char* errname(Err e)
{
    static const char* n[] = { "no error", "error_domain", "error_type", "error_notfound", "error_consistency", "error_parse", "error_toolong", "error_unimplemented", "error_system", "error_alloc", "error_odbc", "error_handles", "error_regexp", "error_write", "other error" };
    return n[e];
}

static const char* units[] = { "K", "C", "M", "KM", "PA", "HPA", "M/S", "%", "NUMERIC", "CODE TABLE", "FLAG TABLE", "DEGREE", "DEGREE TRUE", "J/M**2", "S", "YEAR", "?" };

Varinfo InfoPool::numeric(pbt::Gen& g)
{
    _Varinfo* i = add();
    bool x31 = g.chance(1, 12);
    Varcode code = fxy(0, x31 ? 31 : (unsigned)g.range(0, 63), (unsigned)g.range(0, 255));
    int scale = 0;
    switch (g.draw(4))
    {
        case 0: scale = 0; break;
        case 1: case 2: scale = (int)g.range(-5, 6); break;
        case 3: scale = (int)g.range(-16, 16); break;
    }
    unsigned len = g.chance(1, 8) ? (unsigned)g.range(10, 12) : (unsigned)g.range(1, 9);
    if (g.chance(1, 5))
    {
        i->set_crex(code, "TEST CREX VARIABLE", g.pick(units), scale, len);
        return i;
    }
    unsigned bits = (unsigned)g.range(1, 32);
    int ref = 0;
    switch (g.draw(6))
    {
        case 4: ref = (int)g.edgy(INT_MIN, INT_MAX); break;
        case 5:
        {
            // The field and the digits end about together, or one starts where the other ends
            int64_t p = 1;
            for (unsigned k = 0; k < std::min(len, 9u); ++k) p *= 10;
            int64_t r = (g.boolean() ? p : g.boolean() ? 0 : -p) - (g.chance(2, 3) ? (int64_t)1 << bits : 0) + g.range(-5, 5);
            ref = (int)std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, r));
            break;
        }
        case 0: ref = 0; break;
        case 1: ref = (int)g.range(-40000, 40000); break;
        case 2: ref = -(int)g.range(0, 100); break;
        case 3: ref = (int)g.edgy(-1073741824, 1073741824); break;
    }
    if (g.boolean()) len = digits(bits);
    i->set_bufr(code, "TEST BUFR VARIABLE", g.pick(units), scale, len, ref, (int)bits);
    return i;
}

Varinfo InfoPool::string(pbt::Gen& g)
{
    _Varinfo* i = add();
    unsigned len = g.chance(1, 20) ? (unsigned)g.range(1, 300) : (unsigned)g.range(1, 33);
    i->set_string(fxy(0, (unsigned)g.range(0, 63), (unsigned)g.range(0, 255)), "TEST STRING VARIABLE", len);
    return i;
}

Varinfo InfoPool::binary(pbt::Gen& g)
{
    _Varinfo* i = add();
    i->set_binary(fxy(0, (unsigned)g.range(0, 63), (unsigned)g.range(0, 255)), "TEST BINARY VARIABLE", (unsigned)g.range(1, 100));
    return i;
}

static std::vector<Varinfo> all_shipped;
static const Vartable* main_b;

void init_tables()
{
    if (main_b) return;
    for (const char* n: { "B0000000000000014000", "B0000000000000024000", "B0000000000000031000", "B0000000000098013001", "B000000000980601" })
    {
        const Vartable* t = Vartable::get_bufr(n);
        t->iterate([](Varinfo i) { all_shipped.push_back(i); return true; });
    }
    for (const char* n: { "B000103", "B0000000000000024000" })
    {
        const Vartable* t = Vartable::get_crex(n);
        t->iterate([](Varinfo i) { all_shipped.push_back(i); return true; });
    }
    main_b = Vartable::get_bufr("B0000000000000024000");
}

const Vartable* main_btable() { init_tables(); return main_b; }

Varinfo InfoPool::shipped(pbt::Gen& g)
{
    init_tables();
    return g.pick(all_shipped);
}

Varinfo InfoPool::any(pbt::Gen& g)
{
    switch (g.draw(8))
    {
        case 0: case 1: return shipped(g);
        case 2: return string(g);
        case 3: return binary(g);
        default: return numeric(g);
    }
}

std::string describe(Varinfo i)
{
    return pbt::strf("%s type %s unit %.24s scale %d len %u ref %d bits %u range [%d,%d]", codestr(i->code).c_str(),
            vartype_format(i->type), i->unit, i->scale, i->len, i->bit_ref, i->bit_len, i->imin, i->imax);
}

}
