// C23: all ways of reading a message agree with the plain decode
#include "fuzz.h"
#include "refcrex.h"
#include <wreport/error.h>
#include <wreport/bulletin/dds-scanfeatures.h>
#include <wreport/bulletin/interpreter.h>
#include <wreport/dtable.h>
#include <set>
#include <cstdio>

using namespace wreport;
using namespace pbt;
using model::fxy;
using model::code_t;

namespace {

template<typename F> bool attempt(F f, std::string* msg = nullptr)
{
    try { f(); return true; } catch (wreport::error& e) { if (msg) *msg = e.what(); return false; }
}

template<typename F> std::string captured(F f)
{
    char* buf = nullptr;
    size_t len = 0;
    FILE* out = open_memstream(&buf, &len);
    try { f(out); } catch (...) { fclose(out); free(buf); throw; }
    fclose(out);
    std::string res(buf, len);
    free(buf);
    return res;
}

// Text of a value as described for Var::format
std::string value_text(const Var& v)
{
    if (!v.isset()) return "(undef)";
    switch (v.info()->type)
    {
        case Vartype::String: return v.enqc();
        case Vartype::Binary:
        {
            std::string r;
            for (unsigned i = 0; i < v.info()->len; ++i) r += strf("%02X", (unsigned char)v.enqc()[i]);
            return r;
        }
        default: return model::decimal_text(v.enqi(), v.info()->scale);
    }
}

bool is_num(const Var& v) { return v.info()->type == Vartype::Integer || v.info()->type == Vartype::Decimal; }

// Parts of the text of a variable: code and value
struct Text { std::string lead, value; };
Text text_of(const Var& v)
{
    std::string c = strf("%u%02u%03u ", WR_VAR_FXY(v.code()));
    return { c, "): " + value_text(v) + "\n" };
}

// All of the variables and the set attributes are listed, in order
void listed(const Bulletin& b, const std::string& text, bool numbered, const char* what)
{
    size_t p = 0;
    for (size_t s = 0; s < b.subsets.size(); ++s)
        for (size_t i = 0; i < b.subsets[s].size(); ++i)
        {
            const Var& v = b.subsets[s][i];
            Text t = text_of(v);
            std::string lead = numbered ? strf("[%zu][%zu] ", s, i) + t.lead : t.lead;
            // What is between code and value is the description
            size_t q = p;
            while (true)
            {
                q = text.find(lead, q);
                if (q == std::string::npos) PBT_FAIL(what << " does not list variable " << i << " of subset " << s << ": " << ref::var_text(v) << " after position " << p << " of " << quote(text, 3000));
                size_t e = q + lead.size();
                std::string desc = std::string(v.info()->desc) + "(" + v.info()->unit + t.value;
                if (text.compare(e, desc.size(), desc) == 0) { p = e + desc.size(); break; }
                ++q;
            }
            for (const Var* a = v.next_attr(); a; a = a->next_attr())
            {
                Text at = text_of(*a);
                size_t q = p;
                std::string desc = at.lead + a->info()->desc + "(" + a->info()->unit + at.value;
                q = text.find(desc, p);
                if (q == std::string::npos) PBT_FAIL(what << " does not list attribute " << ref::var_text(*a) << " of variable " << i << " of subset " << s);
                p = q + desc.size();
            }
        }
}

// Features used by a list of descriptors; false if some depend on more than it
bool features(const model::DTable& d, const std::vector<code_t>& l, std::set<std::string>& out, unsigned depth)
{
    if (depth > 30) return false;
    for (size_t i = 0; i < l.size(); ++i)
    {
        code_t c = l[i];
        switch (model::F(c))
        {
            case 1:
                if (model::Y(c)) out.insert("Rxxyyy");
                else
                {
                    code_t f = fxy(0, 31, 12);
                    if (i + 1 < l.size() && model::F(l[i + 1]) == 0 && model::X(l[i + 1]) == 31) f = l[++i];
                    out.insert("Rxx000:" + strf("B%02u%03u", model::X(f), model::Y(f)));
                }
                break;
            case 2:
                switch (model::X(c))
                {
                    case 1: case 2: case 7: case 8: out.insert(refc::letter_code(c)); break;
                    default: return false;
                }
                break;
            case 3:
            {
                auto x = d.find(c);
                if (x == d.end() || !features(d, x->second, out, depth + 1)) return false;
                break;
            }
        }
    }
    return true;
}

// Replications have what they replicate, also in parts that data does not use
bool well_formed(const std::vector<code_t>& l, size_t b, size_t e)
{
    for (size_t i = b; i < e; ++i)
        if (model::F(l[i]) == 1)
        {
            unsigned n = model::X(l[i]);
            if (model::Y(l[i]) == 0 && i + 1 < e && model::F(l[i + 1]) == 0 && model::X(l[i + 1]) == 31) ++i;
            if (n == 0 || i + 1 + n > e || !well_formed(l, i + 1, i + 1 + n)) return false;
            i += n;
        }
    return true;
}

// Data descriptors as they are printed
bool flat(const model::DTable& d, const std::vector<code_t>& l, std::vector<code_t>& out, unsigned depth)
{
    if (depth > 30 || !well_formed(l, 0, l.size())) return false;
    for (size_t i = 0; i < l.size(); ++i)
    {
        code_t c = l[i];
        switch (model::F(c))
        {
            case 0: out.push_back(c); break;
            case 1:
                out.push_back(c);
                if (model::Y(c) == 0 && i + 1 < l.size() && model::F(l[i + 1]) == 0 && model::X(l[i + 1]) == 31) ++i;
                break;
            case 2: if (model::X(c) == 1 || model::X(c) == 2 || model::X(c) == 7 || model::X(c) == 8) out.push_back(c); else return false; break;
            case 3:
            {
                auto x = d.find(c);
                if (x == d.end()) return false;
                out.push_back(c);
                if (!flat(d, x->second, out, depth + 1)) return false;
                break;
            }
        }
    }
    return true;
}

template<typename B>
void same_header(const B& a, const B& h)
{
    B& x = const_cast<B&>(a);
    // Compare without the subsets
    std::vector<Subset> keep;
    keep.swap(x.subsets);
    try { ref::compare_bulletins(a, h, "header only"); } catch (...) { keep.swap(x.subsets); throw; }
    keep.swap(x.subsets);
}

void printing(Ctx& c, const Bulletin& b, bool known_good)
{
    std::string p1 = captured([&](FILE* f) { b.print(f); });
    listed(b, p1, true, "print");
    PBT_CHECK(p1.find(strf(" %zu subsets\n", b.subsets.size())) != std::string::npos, "print does not tell the number of subsets: " << quote(p1, 300));
    std::string why, p2;
    if (!attempt([&] { p2 = captured([&](FILE* f) { b.print_structured(f); }); }, &why)) PBT_FAIL("structured printing of a decoded bulletin failed: " << why);
    listed(b, p2, false, "structured printing");
    if (!b.subsets.empty())
    {
        const Subset& s = b.subsets[0];
        std::string p3 = captured([&](FILE* f) { s.print(f); });
        size_t p = 0;
        for (size_t i = 0; i < s.size(); ++i)
        {
            std::string t = strf("%zu ", i) + strf("%u%02u%03u ", WR_VAR_FXY(s[i].code())) + s[i].info()->desc + "(" + s[i].info()->unit + "): " + value_text(s[i]) + "\n";
            p = p3.find(t, p);
            PBT_CHECK(p != std::string::npos, "Subset::print does not list variable " << i << " " << ref::var_text(s[i]));
            p += t.size();
        }
    }
    std::vector<code_t> l(b.datadesc.begin(), b.datadesc.end()), fl;
    static std::map<std::string, model::DTable> dcache;
    auto& dt = dcache[b.tables.dtable->path()];
    if (dt.empty()) dt = model::load_d(b.tables.dtable->path());
    if (flat(dt, l, fl, 0))
    {
        // Parts of the template that the data does not use can be invalid
        std::string p4;
        if (!attempt([&] { p4 = captured([&](FILE* f) { b.print_datadesc(f); }); }, &why))
        {
            PBT_CHECK(!known_good, "printing the data descriptors failed: " << why);
            return;
        }
        std::istringstream in(p4);
        std::string line;
        size_t n = 0;
        while (std::getline(in, line))
        {
            size_t q = line.find_first_not_of(' ');
            PBT_CHECK(q != std::string::npos && n < fl.size(), "unexpected line " << quote(line) << " in the data descriptors printed");
            std::string e = strf("%u%02u%03u", model::F(fl[n]), model::X(fl[n]), model::Y(fl[n]));
            PBT_CHECK(line.compare(q, 6, e) == 0, "descriptor " << n << " is " << e << " but " << quote(line) << " was printed");
            ++n;
        }
        PBT_CHECK(n == fl.size(), n << " data descriptors printed out of " << fl.size());
        c.label("descriptors printed");
        std::set<std::string> ef;
        if (features(dt, l, ef, 0))
        {
            bulletin::ScanFeatures sf(b.tables, b.datadesc);
            if (!attempt([&] { sf.run(); }, &why))
            {
                PBT_CHECK(!known_good, "looking for the features used failed: " << why);
                return;
            }
            std::set<std::string> got(sf.features.begin(), sf.features.end());
            if (got != ef)
            {
                std::string t;
                for (auto& x: got) t += " " + x;
                t += " instead of";
                for (auto& x: ef) t += " " + x;
                PBT_FAIL("features found:" << t);
            }
            c.label("features");
        }
    }
}

void check_bufr(Ctx& c, const std::string& buf, const ref::Message* m, bool known_good)
{
    auto b = BufrBulletin::decode(buf, "file", 17);
    PBT_CHECK(b->offset == 17 && b->fname == "file", "file name and offset are not the ones given");
    auto h = BufrBulletin::decode_header(buf);
    PBT_CHECK(h->compression == b->compression, "header only: the compression flag differs");
    {
        // The number of subsets is known, not their contents
        for (const auto& s: h->subsets) PBT_CHECK(s.empty(), "header only decoding decodes data");
        h->subsets.clear();
        same_header(*b, *h);
    }
    auto o = BufrCodecOptions::create();
    ref::compare_bulletins(*b, *BufrBulletin::decode(buf, *o), "default options");
    ref::compare_bulletins(*b, *BufrBulletin::decode_verbose(buf, fuzz::null_stream()), "verbose");
    for (const auto& s: b->subsets)
        for (const auto& v: s)
            for (const Var* a = v.next_attr(); a; a = a->next_attr())
                PBT_CHECK(a->isset(), "variable " << ref::var_text(v) << " was decoded with an unset attribute");
    o->decode_adds_undef_attrs = true;
    auto u = BufrBulletin::decode(buf, *o);
    ref::compare_bulletins(*b, *u, "with undefined attributes", false);
    same_header(*u, *BufrBulletin::decode_header(buf, *o));
    if (m)
        for (size_t s = 0; s < m->subsets.size(); ++s)
            for (size_t i = 0; i < m->subsets[s].vars.size(); ++i)
                for (auto a: m->subsets[s].vars[i].undef)
                {
                    PBT_CHECK(u->subsets[s][i].enqa(a), "variable " << i << " of subset " << s << " has an undefined attribute that was not added");
                    c.label("undefined attribute");
                }
    printing(c, *b, known_good);
    // Unset attributes are listed too
    std::string p = captured([&](FILE* f) { u->print(f); });
    listed(*u, p, true, "print");
    ref::compare_bulletins(*b, *BufrBulletin::decode(buf), "after printing");
    c.label(b->compression ? "BUFR compressed" : "BUFR");
}

void check_crex(Ctx& c, const std::string& buf, bool known_good)
{
    auto b = CrexBulletin::decode(buf, "file", 17);
    PBT_CHECK(b->offset == 17 && b->fname == "file", "file name and offset are not the ones given");
    auto h = CrexBulletin::decode_header(buf);
    PBT_CHECK(h->subsets.empty(), "header only decoding decodes data");
    PBT_CHECK(h->has_check_digit == b->has_check_digit, "header only: check digit flag differs");
    same_header(*b, *h);
    auto v = CrexBulletin::decode_verbose(buf, fuzz::null_stream());
    ref::compare_bulletins(*b, *v, "verbose");
    PBT_CHECK(v->has_check_digit == b->has_check_digit, "verbose: check digit flag differs");
    printing(c, *b, known_good);
    ref::compare_bulletins(*b, *CrexBulletin::decode(buf), "after printing");
    c.label("CREX");
}

void run(Ctx& c)
{
    Gen& g = c.g;
    c.evaluations = 1;
    switch (g.draw(8))
    {
        case 0: case 1: case 2: case 3:
        {
            ref::GenOpts o;
            o.small = g.boolean();
            o.want_bitmaps = g.chance(1, 3);
            ref::Message m = ref::gen_message(g, o);
            bool compressed = m.compressible && g.boolean();
            c.set_sample((compressed ? "compressed " : "") + m.describe());
            std::string buf = ref::write(m, g, compressed);
            check_bufr(c, buf, &m, true);
            if (m.subsets[0].vars.size() > 1) c.nontrivial(buf);
            break;
        }
        case 4: case 5:
        {
            std::string desc;
            std::string buf = fuzz::bufr_input(g, &desc);
            c.set_sample(desc + " " + hex(buf));
            if (fuzz::expensive(buf)) throw Discard("work out of proportion with the size of the message");
            if (!attempt([&] { BufrBulletin::decode(buf); })) throw Discard("does not decode");
            check_bufr(c, buf, nullptr, false);
            c.label("mutated");
            c.nontrivial(buf);
            break;
        }
        case 6:
        {
            const auto& s = g.pick(fuzz::bufr_samples());
            c.set_sample(s.name);
            if (s.data.size() > 60000 || fuzz::expensive(s.data)) throw Discard("big sample");
            if (!attempt([&] { BufrBulletin::decode(s.data); })) throw Discard("does not decode");
            check_bufr(c, s.data, nullptr, true);
            c.label("sample");
            c.nontrivial(s.data);
            break;
        }
        case 7:
        {
            refc::GenOpts o;
            o.small = g.boolean();
            refc::Message m = refc::gen_message(g, o);
            c.set_sample(m.describe());
            std::string buf = g.chance(1, 20) ? g.pick(fuzz::crex_samples()).data : refc::write(m, g);
            if (!attempt([&] { CrexBulletin::decode(buf); })) throw Discard("does not decode");
            check_crex(c, buf, true);
            c.nontrivial(buf);
            break;
        }
    }
}

void init() { model::init_tables(); fuzz::bufr_samples(); fuzz::crex_samples(); refc::tabs(); }

Register r({"C23", "generated messages (BUFR plain and compressed, CREX), samples, and mutated inputs that still decode, read with every entry point and printed in every way; non trivial: more than one variable; distinct: message bytes",
        run, init, 20000, 700000, true});
}
