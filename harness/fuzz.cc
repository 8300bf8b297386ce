#include "fuzz.h"
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/dtable.h>
#include <dirent.h>
#include <algorithm>

using namespace wreport;
using namespace pbt;

namespace fuzz {
using model::fxy;

std::string repo_dir()
{
    std::string t = model::tables_dir();
    while (!t.empty() && t.back() == '/') t.pop_back();
    return t.substr(0, t.rfind('/'));
}

std::string slurp(const std::string& path)
{
    std::string res;
    FILE* f = fopen(path.c_str(), "rb");
    if (!f) return res;
    char buf[65536];
    size_t n;
    while ((n = fread(buf, 1, sizeof(buf), f)) > 0) res.append(buf, n);
    fclose(f);
    return res;
}

static void list_files(const std::string& dir, std::vector<std::string>& out)
{
    DIR* d = opendir(dir.c_str());
    if (!d) return;
    std::vector<std::string> names;
    while (dirent* e = readdir(d)) if (e->d_name[0] != '.') names.push_back(e->d_name);
    closedir(d);
    std::sort(names.begin(), names.end());
    for (auto& n: names)
    {
        std::string p = dir + "/" + n;
        if (DIR* s = opendir(p.c_str())) { closedir(s); list_files(p, out); }
        else out.push_back(p);
    }
}

static unsigned be(const std::string& b, size_t p, unsigned n)
{
    unsigned r = 0;
    for (unsigned i = 0; i < n; ++i) r = (r << 8) | (p + i < b.size() ? (uint8_t)b[p + i] : 0);
    return r;
}
static void put_be(std::string& b, size_t p, unsigned n, unsigned v)
{
    for (unsigned i = 0; i < n; ++i) if (p + i < b.size()) b[p + i] = (char)(v >> (8 * (n - 1 - i)));
}

const std::vector<Sample>& bufr_samples()
{
    static std::vector<Sample> res;
    if (!res.empty()) return res;
    std::vector<std::string> files;
    list_files(repo_dir() + "/testdata/bufr", files);
    for (auto& f: files)
    {
        std::string d = slurp(f);
        for (size_t p = d.find("BUFR"); p != std::string::npos; )
        {
            size_t len = be(d, p + 4, 3);
            if (p + len > d.size()) len = d.size() - p;
            if (len < 8) { p = d.find("BUFR", p + 4); continue; }
            res.push_back({ f.substr(f.rfind('/') + 1), d.substr(p, len) });
            p = d.find("BUFR", p + len);
        }
    }
    if (res.empty()) { fprintf(stderr, "no sample messages in %s\n", repo_dir().c_str()); exit(3); }
    return res;
}

const std::vector<Sample>& crex_samples()
{
    static std::vector<Sample> res;
    if (!res.empty()) return res;
    std::vector<std::string> files;
    list_files(repo_dir() + "/testdata/crex", files);
    for (auto& f: files)
    {
        std::string d = slurp(f);
        for (size_t p = d.find("CREX++"); p != std::string::npos; )
        {
            size_t e = d.find("7777", p);
            if (e == std::string::npos) e = d.size(); else e += 4;
            res.push_back({ f.substr(f.rfind('/') + 1), d.substr(p, e - p) });
            p = d.find("CREX++", e);
        }
    }
    if (res.empty()) { fprintf(stderr, "no sample messages in %s\n", repo_dir().c_str()); exit(3); }
    return res;
}

std::string mutate(Gen& g, std::string b, const std::vector<Sample>& other)
{
    unsigned n = 1 + g.size(5);
    for (unsigned i = 0; i < n; ++i)
    {
        size_t p = b.empty() ? 0 : g.draw(b.size());
        switch (g.draw(9))
        {
            case 0: if (!b.empty()) b[p] = (char)(b[p] ^ (1 << g.draw(8))); break;
            case 1: if (!b.empty()) b[p] = (char)g.byte(); break;
            case 2: if (!b.empty()) b[p] = g.pick({ (char)0, (char)0xff, (char)0x7f, (char)0x80, '7', ' ' }); break;
            case 3: b.resize(p); break;
            case 4: b.erase(p, 1 + g.size(8)); break;
            case 5: b.insert(p, g.bytes(1 + g.size(8))); break;
            case 6: { size_t k = std::min<size_t>(b.size() - p, 1 + g.size(16)); for (size_t j = 0; j < k; ++j) b[p + j] = (char)g.byte(); break; }
            case 7: { char v = g.boolean() ? (char)0xff : (char)0; size_t k = std::min<size_t>(b.size() - p, 1 + g.size(64)); for (size_t j = 0; j < k; ++j) b[p + j] = v; break; }
            case 8:
            {
                const auto& o = other[g.draw(other.size())].data;
                if (o.size() > 3000) break;
                size_t q = g.draw(o.size() + 1);
                b = b.substr(0, p) + o.substr(q);
                break;
            }
        }
    }
    return b;
}

std::vector<code_t> soup(Gen& g, const ref::Tab& t, unsigned max)
{
    static const std::vector<code_t> special = {
        fxy(0, 31, 0), fxy(0, 31, 1), fxy(0, 31, 2), fxy(0, 31, 11), fxy(0, 31, 12), fxy(0, 31, 21), fxy(0, 31, 31),
        fxy(0, 33, 2), fxy(0, 33, 3), fxy(0, 33, 7), fxy(0, 33, 40), fxy(0, 33, 41), fxy(0, 33, 50), fxy(0, 1, 31), fxy(0, 1, 201) };
    static const unsigned ox[] = { 1, 2, 3, 4, 5, 6, 7, 8, 22, 23, 24, 25, 32, 36, 37, 41, 63 };
    static const unsigned oy[] = { 0, 1, 2, 3, 7, 8, 16, 31, 32, 33, 40, 63, 64, 96, 100, 120, 127, 128, 129, 130, 136, 150, 160, 200, 254, 255 };
    std::vector<code_t> res;
    unsigned n = 1 + g.size(max);
    while (res.size() < n)
    {
        switch (g.draw(12))
        {
            case 0: case 1: case 2: res.push_back(t.nums[g.draw(t.nums.size())]->code); break;
            case 3: res.push_back(g.boolean() ? t.codes[g.draw(t.codes.size())]->code : t.strs[g.draw(t.strs.size())]->code); break;
            case 4: res.push_back(g.pick(special)); break;
            case 5: res.push_back(t.seqs.empty() ? fxy(3, 1, 11) : t.seqs[g.draw(t.seqs.size())]); break;
            case 6: case 7: res.push_back(fxy(2, g.pick(ox), g.pick(oy))); break;
            case 8: res.push_back(fxy(1, (unsigned)g.draw(5), (unsigned)g.edgy(0, 255))); break;
            case 9: res.push_back(fxy(1, 1 + (unsigned)g.draw(4), 0)); res.push_back(special[g.draw(5)]); break;
            case 10: // a bitmap
                res.push_back(g.pick({ fxy(2, 22, 0), fxy(2, 23, 0) }));
                if (g.boolean()) res.push_back(fxy(2, 36, 0));
                if (g.boolean()) { res.push_back(fxy(1, 1, 1 + (unsigned)g.draw(6))); res.push_back(fxy(0, 31, 31)); }
                else { res.push_back(fxy(1, 1, 0)); res.push_back(special[g.draw(3)]); res.push_back(fxy(0, 31, 31)); }
                for (unsigned k = (unsigned)g.draw(4); k; --k)
                    res.push_back(g.boolean() ? fxy(2, 23, 255) : g.boolean() ? fxy(0, 33, 7) : fxy(2, 37, 0));
                break;
            case 11:
                switch (g.draw(4))
                {
                    case 0: res.push_back((code_t)g.draw(65536)); break;
                    case 1: res.push_back(fxy(2, 4, 1 + (unsigned)g.draw(32))); res.push_back(fxy(0, 31, 21)); break;
                    case 2: res.push_back(fxy(2, 6, (unsigned)g.edgy(0, 255))); res.push_back((code_t)g.draw(65536)); break;
                    case 3: res.push_back(fxy(2, 3, (unsigned)g.edgy(0, 255))); res.push_back(t.nums[g.draw(t.nums.size())]->code); res.push_back(fxy(2, 3, 255)); res.push_back(res[res.size() - 2]); break;
                }
                break;
        }
    }
    return res;
}

static std::string random_bits(Gen& g, unsigned n)
{
    std::string d;
    while (d.size() < n)
        switch (g.draw(6))
        {
            case 0: d += std::string(1 + g.size(12), '\0'); break;
            case 1: d += std::string(1 + g.size(12), (char)0xff); break;
            case 2: d += (char)(1 << g.draw(8)); break;
            default: d += g.bytes(1 + g.draw(6)); break;
        }
    d.resize(n);
    return d;
}

std::string soup_message(Gen& g, std::string* desc)
{
    ref::Message m;
    m.h = ref::gen_header(g);
    m.h.mtn = 0;
    static const unsigned vers[] = { 24, 14, 17, 20, 33 };
    m.h.mtv = g.pick(vers);
    m.h.mtvl = 0;
    m.h.centre = 0; m.h.subcentre = 0;
    auto b = BufrBulletin::create();
    b->master_table_version_number = (uint8_t)m.h.mtv;
    b->originating_centre = 0; b->originating_subcentre = 0;
    b->load_tables();
    m.tab = ref::get_tab(b->tables.btable->path(), b->tables.dtable->path());
    m.desc = soup(g, *m.tab, 12);
    bool compressed = g.chance(1, 2);
    unsigned n = 1 + (unsigned)g.draw(4);
    m.subsets.resize(1);
    m.compressible = m.same_shape = true;
    std::string out = ref::write(m, g, false);
    // Put the data and the flags in place
    ref::Parsed p = ref::parse(out, false);
    std::string data = random_bits(g, (unsigned)g.draw(120));
    if (g.chance(1, 8)) n = (unsigned)g.edgy(0, 65535);
    out = out.substr(0, p.sec[4]);
    put_be(out, p.sec[3] + 4, 2, n);
    out[p.sec[3] + 6] = (char)((compressed ? 0x40 : 0) | (g.boolean() ? 0x80 : 0));
    std::string s4(4, '\0');
    put_be(s4, 0, 3, (unsigned)data.size() + 4);
    out += s4 + data + "7777";
    put_be(out, 4, 3, (unsigned)out.size());
    if (desc)
    {
        *desc += strf("%s, %u subsets, descriptors", compressed ? "compressed" : "uncompressed", n);
        for (auto c: m.desc) *desc += " " + model::codestr(c);
        *desc += " data " + hex(data);
    }
    return out;
}

std::string mutate_bufr(Gen& g, std::string b)
{
    if (b.size() < 30) return mutate(g, b, bufr_samples());
    // Locate the sections
    unsigned ed = (uint8_t)b[7];
    size_t s1 = 8, s2 = s1 + be(b, s1, 3), s3 = s2;
    if (be(b, s1 + (ed == 4 ? 9 : 7), 1) & 0x80) s3 = s2 + be(b, s2, 3);
    size_t s4 = s3 + be(b, s3, 3), s5 = s4 + be(b, s4, 3);
    if (s5 > b.size() || s4 < s3 + 7) return mutate(g, b, bufr_samples());
    unsigned n = 1 + g.size(4);
    for (unsigned i = 0; i < n; ++i)
        switch (g.draw(8))
        {
            case 0: // a section length
            {
                size_t s = g.pick({ s1, s2, s3, s4, (size_t)4 });
                unsigned len = be(b, s, 3);
                put_be(b, s, 3, g.boolean() ? (unsigned)((int)len + (int)g.edgy(-8, 8)) & 0xffffff : (unsigned)g.edgy(0, 0xffffff));
                break;
            }
            case 1: { size_t p = s1 + g.draw(22); if (p < b.size()) b[p] = (char)g.byte(); break; }
            case 2: put_be(b, s3 + 4, 2, (unsigned)g.edgy(0, 8)); break;
            case 3: if (s3 + 6 < b.size()) b[s3 + 6] = (char)(b[s3 + 6] ^ 0x40); break;
            case 4: // a descriptor
            {
                unsigned nd = (unsigned)(s4 - s3 - 7) / 2;
                if (!nd) break;
                size_t p = s3 + 7 + 2 * g.draw(nd);
                static const code_t c[] = { fxy(1, 1, 0), fxy(1, 0, 5), fxy(2, 1, 255), fxy(2, 1, 1), fxy(2, 2, 255), fxy(2, 3, 255), fxy(2, 3, 200), fxy(2, 3, 32), fxy(2, 3, 1), fxy(2, 4, 32), fxy(2, 4, 255), fxy(2, 5, 255), fxy(2, 6, 33), fxy(2, 7, 12), fxy(2, 7, 255), fxy(2, 8, 255), fxy(2, 22, 0), fxy(2, 23, 0), fxy(2, 23, 255), fxy(2, 36, 0), fxy(2, 37, 0), fxy(2, 37, 255), fxy(0, 31, 31), fxy(0, 31, 2), fxy(0, 33, 7) };
                put_be(b, p, 2, g.boolean() ? g.pick(c) : (unsigned)g.draw(65536));
                break;
            }
            case 5: // data bits
            {
                for (unsigned k = 1 + g.size(6); k && s5 > s4 + 4; --k) { size_t p = s4 + 4 + g.draw(s5 - s4 - 4); b[p] = g.boolean() ? (char)g.byte() : (char)(b[p] ^ (1 << g.draw(8))); }
                break;
            }
            case 6: // shorten section 4, keeping the envelope consistent
            {
                size_t len = s5 - s4 - 4;
                if (!len) break;
                size_t cut = 1 + g.draw(len);
                b.erase(s5 - cut, cut);
                s5 -= cut;
                put_be(b, s4, 3, (unsigned)(s5 - s4));
                put_be(b, 4, 3, (unsigned)b.size());
                break;
            }
            case 7: b.resize(g.draw(b.size() + 1)); return b;
        }
    return b;
}

std::string bufr_input(Gen& g, std::string* desc, bool* good)
{
    std::string buf;
    bool sure = false;
    switch (g.draw(8))
    {
        case 0: case 1: case 2:
            if (desc) *desc += "random template: ";
            buf = soup_message(g, desc);
            if (g.chance(1, 4)) buf = mutate_bufr(g, buf);
            break;
        case 3: case 4:
        {
            ref::GenOpts o;
            o.small = g.boolean();
            o.want_bitmaps = g.chance(1, 3);
            ref::Message m = ref::gen_message(g, o);
            buf = ref::write(m, g, m.compressible && g.boolean());
            if (desc) *desc += "generated message " + m.describe();
            if (g.chance(1, 8)) sure = true;
            else buf = g.boolean() ? mutate_bufr(g, buf) : mutate(g, buf, bufr_samples());
            break;
        }
        default:
        {
            const auto& s = bufr_samples()[g.draw(bufr_samples().size())];
            if (s.data.size() > 20000) throw Discard("big sample");
            if (desc) *desc += "sample " + s.name;
            buf = g.boolean() ? mutate_bufr(g, s.data) : mutate(g, s.data, bufr_samples());
            break;
        }
    }
    if (good) *good = sure;
    return buf;
}

namespace {
struct Cost
{
    const ref::Tab& t;
    double fuel = 1e7;
    explicit Cost(const ref::Tab& t) : t(t) {}

    // Work done by a list without reading any data, assuming that what reads
    // data is paid for by the size of the message; sets reads if it must read
    double run(const std::vector<code_t>& l, size_t b, size_t e, bool& reads, unsigned depth)
    {
        double cost = 1;
        if (depth > 80) { reads = false; return 1e12; }
        for (size_t i = b; i < e; ++i)
        {
            if ((fuel -= 1) < 0) return 1e12;
            code_t c = l[i];
            cost += 1;
            switch (model::F(c))
            {
                case 0: reads = true; break;
                case 1:
                {
                    unsigned n = model::Y(c);
                    double count = n;
                    bool delayed = n == 0;
                    if (delayed)
                    {
                        reads = true;
                        count = 65536;
                        if (i + 1 < e && model::F(l[i + 1]) == 0 && model::X(l[i + 1]) == 31)
                        {
                            ++i;
                            auto d = t.find(l[i]);
                            if (d && d->bits < 40) count = pow(2, d->bits);
                        }
                    }
                    size_t x = std::min<size_t>(model::X(c), e - i - 1);
                    bool r = false;
                    double body = run(l, i + 1, i + 1 + x, r, depth + 1);
                    if (r) reads = reads || n > 0;
                    // A body that reads data is bounded by the data
                    cost += r ? body : body * count;
                    i += x;
                    break;
                }
                case 2: if (model::X(c) == 6) ++i; break;
                case 3:
                {
                    auto d = t.d.find(c);
                    if (d == t.d.end()) return cost;   // an error
                    cost += run(d->second, 0, d->second.size(), reads, depth + 1);
                    break;
                }
            }
        }
        return cost;
    }
};
}

static const ref::Tab* newest_tab()
{
    static const ref::Tab* t = nullptr;
    if (!t)
    {
        auto bb = BufrBulletin::create();
        bb->master_table_version_number = 33;
        bb->originating_centre = 0; bb->originating_subcentre = 0;
        bb->load_tables();
        t = ref::get_tab(bb->tables.btable->path(), bb->tables.dtable->path());
    }
    return t;
}

bool expensive_template(const std::vector<code_t>& l, unsigned vars)
{
    Cost c(*newest_tab());
    bool reads = false;
    return c.run(l, 0, l.size(), reads, 0) * (vars + 1) > 1e6;
}

bool expensive(const std::string& b)
{
    if (b.size() < 30) return false;
    unsigned ed = (uint8_t)b[7];
    size_t s1 = 8, s2 = s1 + be(b, s1, 3), s3 = s2;
    if (be(b, s1 + (ed == 4 ? 9 : 7), 1) & 0x80) s3 = s2 + be(b, s2, 3);
    if (s3 + 7 > b.size()) return false;
    size_t s4 = s3 + be(b, s3, 3);
    if (s4 > b.size() || s4 < s3 + 7) return false;
    unsigned subsets = be(b, s3 + 4, 2);
    bool compressed = b[s3 + 6] & 0x40;
    std::vector<code_t> l;
    for (size_t p = s3 + 7; p + 1 < s4; p += 2) l.push_back((code_t)be(b, p, 2));
    // The contents of table D hardly matter here
    Cost c(*newest_tab());
    bool reads = false;
    double body = c.run(l, 0, l.size(), reads, 0);
    double bits = (double)(b.size() - s4) * 8;
    if (compressed)
        return body * (bits / 7 + 1) > 5e6 || (double)subsets * (bits / 7 + l.size()) > 3e5;
    return body * ((double)subsets + bits) > 2e7;
}

FILE* null_stream()
{
    static FILE* f = nullptr;
    if (!f) f = fopen("/dev/null", "w");
    return f;
}

static void inspect_var(const Var& v)
{
    v.format("");
    v.info();
    if (v.isset())
    {
        v.enqc();
        if (v.info()->type == Vartype::Integer || v.info()->type == Vartype::Decimal) { v.enqd(); v.enqi(); }
    }
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) { a->format(""); a->isset(); }
}

void inspect(const Bulletin& b)
{
    FILE* out = null_stream();
    b.print(out);
    // These can refuse what does not match the descriptors
    try { b.print_structured(out); } catch (wreport::error&) {}
    try { b.print_datadesc(out); } catch (wreport::error&) {}
    for (const auto& s: b.subsets)
        for (const auto& v: s) inspect_var(v);
    unsigned d = b.diff(b);
    if (d) throw Fail(strf("decoded bulletin has %u differences from itself", d));
}

}
