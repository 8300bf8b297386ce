// C07: variables behave as values under any history of copy/move/attr operations
#include "model.h"
#include <wreport/conv.h>
#include <algorithm>
#include <sanitizer/allocator_interface.h>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

struct MV
{
    Varinfo info = nullptr;
    bool set = false;
    int64_t raw = 0;
    std::string str;
    std::map<Varcode, MV> attrs;

    bool numeric() const { return info->type == Vartype::Integer || info->type == Vartype::Decimal; }
    bool same_value(const MV& o) const
    {
        if (set != o.set) return false;
        if (!set) return true;
        return numeric() ? raw == o.raw : str == o.str;
    }
    std::string show() const
    {
        std::string res = info ? codestr(info->code) : "?";
        if (!set) res += "=unset";
        else if (numeric()) res += "=" + std::to_string(raw);
        else res += "=" + quote(str, 60);
        if (!attrs.empty())
        {
            res += "{";
            for (const auto& a: attrs) res += a.second.show() + " ";
            res += "}";
        }
        return res;
    }
};

void check_value(const Var& v, const MV& m, const std::string& what)
{
    PBT_CHECK(v.info() == m.info, what << ": variable has definition " << describe(v.info()) << " expected " << describe(m.info));
    PBT_CHECK(v.code() == m.info->code, what << ": code");
    PBT_CHECK(v.isset() == m.set, what << ": variable is " << (v.isset() ? "set" : "unset") << " expected " << m.show());
    if (!m.set) return;
    if (m.numeric())
        PBT_CHECK(v.enqi() == m.raw, what << ": value " << v.enqi() << " expected " << m.show());
    else
    {
        PBT_CHECK(v.enqs() == m.str, what << ": value " << quote(v.enqs()) << " expected " << m.show());
        PBT_CHECK(memcmp(v.enqc(), m.str.c_str(), m.str.size() + 1) == 0, what << ": enqc");
    }
}

void check_var(const Var& v, const MV& m, const std::string& what)
{
    check_value(v, m, what);
    auto i = m.attrs.begin();
    for (const Var* a = v.next_attr(); a; a = a->next_attr(), ++i)
    {
        PBT_CHECK(i != m.attrs.end(), what << ": extra attribute " << codestr(a->code()) << " on " << m.show());
        PBT_CHECK(a->code() == i->first, what << ": attribute " << codestr(a->code()) << " instead of " << codestr(i->first));
        check_value(*a, i->second, what + " attribute");
    }
    PBT_CHECK(i == m.attrs.end(), what << ": missing attribute " << codestr(i->first));
    for (const auto& a: m.attrs)
    {
        const Var* x = v.enqa(a.first);
        PBT_CHECK(x && x->code() == a.first, what << ": enqa " << codestr(a.first));
        check_value(*x, a.second, what + " enqa");
    }
    for (Varcode c: { fxy(0, 33, 7), fxy(0, 0, 0), fxy(0, 63, 255) })
        if (m.attrs.find(c) == m.attrs.end())
            PBT_CHECK(v.enqa(c) == nullptr, what << ": enqa finds a missing attribute");
}

struct State
{
    Gen& g;
    InfoPool pool;
    std::vector<Varinfo> infos;
    std::vector<Varinfo> attr_infos;
    std::vector<std::unique_ptr<Var>> vars;
    std::vector<MV> model;
    std::string log;
    uint64_t h = 0;
    unsigned interesting = 0;

    State(Gen& g) : g(g) {}

    std::string bytes_for(Varinfo i, const std::string& val)
    {
        std::string cur = val.substr(0, i->len);
        cur.resize(i->len, 0);
        if (val.size() >= i->len && i->bit_len % 8)
            cur[i->len - 1] = (char)(cur[i->len - 1] & ((1 << (i->bit_len % 8)) - 1));
        return cur;
    }

    // Set a random value on a variable and its model
    void set_random(Var& v, MV& m)
    {
        switch (m.info->type)
        {
            case Vartype::Integer:
            case Vartype::Decimal:
                if (m.info->imin > m.info->imax) { v.unset(); m.set = false; return; }
                m.raw = g.edgy(m.info->imin, m.info->imax);
                if (g.boolean()) v.seti((int)m.raw);
                else v.sets(std::to_string(m.raw));
                m.set = true;
                break;
            case Vartype::String: {
                std::string s = g.ascii(g.size(m.info->len + 3));
                v.sets(s);
                m.str = s.substr(0, m.info->len);
                m.set = true;
                break;
            }
            case Vartype::Binary: {
                std::string s = g.bytes(g.size(m.info->len + 3));
                v.sets(s);
                m.str = bytes_for(m.info, s);
                m.set = true;
                break;
            }
        }
    }

    std::unique_ptr<Var> make(Varinfo i, MV& m)
    {
        std::unique_ptr<Var> v(new Var(i));
        m = MV();
        m.info = i;
        if (!g.chance(1, 4)) set_random(*v, m);
        return v;
    }

    MV no_attrs(const MV& m) { MV r(m); r.attrs.clear(); return r; }

    // Model of dst.setval(src); returns false if the outcome has to be read from dst
    void setval(unsigned d, unsigned s, const std::string& what, const std::function<void()>& op, MV& md)
    {
        const MV ms = model[s];
        MV before = md;
        std::string msg;
        Err e = caught(op, &msg);
        Var& dst = *vars[d];
        if (s == d)
        {
            PBT_CHECK(e == E_NONE, what << ": setval on itself: " << errname(e) << " " << msg);
            return;
        }
        if (!ms.set)
        {
            PBT_CHECK(e == E_NONE, what << ": " << msg);
            md.set = false;
            return;
        }
        std::string text = ms.numeric() ? std::to_string(ms.raw) : ms.str;
        switch (md.info->type)
        {
            case Vartype::String:
                PBT_CHECK(e == E_NONE, what << ": " << msg);
                md.set = true;
                md.str = std::string(text.c_str()).substr(0, md.info->len);
                break;
            case Vartype::Binary:
                PBT_CHECK(e == E_NONE, what << ": " << msg);
                md.set = true;
                md.str = bytes_for(md.info, text);
                break;
            default:
                if (!ms.numeric())
                {
                    PBT_CHECK(e == E_TYPE, what << ": expected a type error, got " << errname(e));
                    return;
                }
                double val = 0;
                if (caught([&] { val = convert_units(ms.info->unit, md.info->unit, (double)scaled(ms.raw, ms.info->scale)); }) != E_NONE)
                {
                    PBT_CHECK(e != E_NONE && e != E_DOMAIN, what << ": no conversion exists, but got " << errname(e));
                    return;
                }
                long double x = (long double)val * scaled(1, -md.info->scale);
                if (x < md.info->imin - 0.51L || x > md.info->imax + 0.51L || md.info->imin > md.info->imax)
                {
                    PBT_CHECK(e == E_DOMAIN, what << ": expected a domain error, got " << errname(e));
                    md.set = false;
                } else if (x < md.info->imin + 0.01L || x > md.info->imax - 0.01L) {
                    // At the border both are fine
                    md.set = dst.isset();
                    if (md.set) md.raw = dst.enqi();
                } else {
                    PBT_CHECK(e == E_NONE, what << ": unexpected " << errname(e) << " " << msg);
                    PBT_CHECK(dst.isset(), what << ": unset");
                    PBT_CHECK(fabsl(dst.enqi() - x) <= 0.5L + fabsl(x) * 1e-12L, what << ": raw value " << dst.enqi() << " expected " << (double)x);
                    md.set = true;
                    md.raw = dst.enqi();
                }
                break;
        }
    }

    void step(unsigned n)
    {
        unsigned a = (unsigned)g.draw(vars.size()), b = (unsigned)g.draw(vars.size());
        unsigned op = (unsigned)g.draw(20);
        std::string what;
        auto name = [&](const char* o) { what = strf("step %u: %s v%u v%u", n, o, a, b); };
        switch (op)
        {
            case 0: {
                name("construct");
                MV m;
                vars[a] = make(g.pick(infos), m);
                model[a] = m;
                break;
            }
            case 1: {
                name("copy construct");
                std::unique_ptr<Var> v(new Var(*vars[b]));
                vars[a] = std::move(v);
                model[a] = MV(model[b]);
                ++interesting;
                break;
            }
            case 2: {
                name("move construct");
                std::unique_ptr<Var> v(new Var(std::move(*vars[b])));
                MV m(model[b]);
                model[b].set = false;
                model[b].attrs.clear();
                if (a != b)
                    check_var(*vars[b], model[b], log + what + " (source)");
                vars[a] = std::move(v);
                model[a] = m;
                ++interesting;
                break;
            }
            case 3: case 4: case 5: {
                name("copy assign");
                *vars[a] = *vars[b];
                if (a != b) model[a] = MV(model[b]);
                ++interesting;
                break;
            }
            case 6: case 7: {
                name("move assign");
                *vars[a] = std::move(*vars[b]);
                if (a != b)
                {
                    MV m(model[b]);
                    model[b].set = false;
                    model[b].attrs.clear();
                    model[a] = m;
                }
                ++interesting;
                break;
            }
            case 8: case 9:
                name("set value");
                set_random(*vars[a], model[a]);
                break;
            case 10:
                name("unset");
                vars[a]->unset();
                model[a].set = false;
                break;
            case 11: {
                name("seta copy");
                if (g.boolean())
                {
                    vars[a]->seta(*vars[b]);
                    MV m = no_attrs(model[b]);
                    model[a].attrs[m.info->code] = m;
                } else {
                    MV m;
                    auto v = make(g.pick(attr_infos), m);
                    vars[a]->seta(*v);
                    check_var(*v, m, log + what + " (attribute source)");
                    model[a].attrs[m.info->code] = m;
                }
                break;
            }
            case 12: {
                name("seta move");
                if (a != b && g.boolean())
                {
                    MV m = no_attrs(model[b]);
                    vars[a]->seta(std::move(*vars[b]));
                    model[a].attrs[m.info->code] = m;
                    model[b].set = false;
                    model[b].attrs.clear();
                } else {
                    MV m;
                    auto v = make(g.pick(attr_infos), m);
                    vars[a]->seta(std::move(*v));
                    model[a].attrs[m.info->code] = m;
                    PBT_CHECK(!v->isset(), log << what << ": moved attribute is still set");
                }
                ++interesting;
                break;
            }
            case 13: {
                name("seta unique_ptr");
                MV m;
                auto v = make(g.pick(attr_infos), m);
                if (g.boolean())
                {
                    // Attributes do not have attributes of their own
                    MV m1;
                    v->seta(make(g.pick(attr_infos), m1));
                }
                vars[a]->seta(std::move(v));
                model[a].attrs[m.info->code] = m;
                break;
            }
            case 14: {
                name("unseta");
                Varcode c = g.pick(attr_infos)->code;
                if (!model[a].attrs.empty() && g.boolean())
                {
                    auto i = model[a].attrs.begin();
                    std::advance(i, (long)g.draw(model[a].attrs.size()));
                    c = i->first;
                }
                vars[a]->unseta(c);
                model[a].attrs.erase(c);
                ++interesting;
                break;
            }
            case 15:
                name("clear_attrs");
                vars[a]->clear_attrs();
                model[a].attrs.clear();
                break;
            case 16: {
                name("setattrs");
                vars[a]->setattrs(*vars[b]);
                model[a].attrs = std::map<Varcode, MV>(model[b].attrs);
                ++interesting;
                break;
            }
            case 17: {
                name("setval");
                what += " (" + model[a].show() + " from " + model[b].show() + ")";
                setval(a, b, log + what, [&] { vars[a]->setval(*vars[b]); }, model[a]);
                ++interesting;
                break;
            }
            case 18: {
                name("set from var");
                bool ok = false;
                setval(a, b, log + what, [&] { vars[a]->set(*vars[b]); ok = true; }, model[a]);
                if (ok) model[a].attrs = std::map<Varcode, MV>(model[b].attrs);
                break;
            }
            case 19: {
                name("convert construct");
                // Var(info, var): same rules as setval on a new variable
                std::unique_ptr<Var> v;
                Varinfo i = g.pick(infos);
                MV m;
                m.info = i;
                Err e = caught([&] { v.reset(new Var(i, *vars[b])); });
                if (!v)
                {
                    PBT_CHECK(e != E_NONE, log << what);
                    break;
                }
                // Compare with setval
                Var v2(i);
                v2.setval(*vars[b]);
                PBT_CHECK(v->isset() == v2.isset(), log << what << ": isset differs from setval");
                PBT_CHECK(v->value_equals(v2), log << what << ": value differs from setval");
                m.set = v2.isset();
                if (m.set && m.numeric()) m.raw = v2.enqi();
                else if (m.set) m.str = v2.enqs();
                // Whether attributes are copied is not specified consistently
                v->clear_attrs();
                vars[a] = std::move(v);
                model[a] = m;
                break;
            }
        }
        log += what + "; ";
        h = hash_str(log) ^ h;
        for (unsigned i = 0; i < vars.size(); ++i)
            check_var(*vars[i], model[i], log + strf("v%u", i));
        // A copy is equal to its source, and stays so in both directions
        {
            Var c(*vars[a]);
            PBT_CHECK(c == *vars[a] && *vars[a] == c && !(c != *vars[a]), log << ": copy of v" << a << " is not equal to it");
            PBT_CHECK(c.value_equals(*vars[a]), log << ": value_equals of a copy");
            // One character changed, anywhere, makes them differ
            if (model[a].set && model[a].info->type == Vartype::String && !model[a].str.empty())
            {
                std::string t = model[a].str;
                char& x = t[g.boolean() ? t.size() - 1 : g.draw(t.size())];
                x = x == 'x' ? 'y' : 'x';
                c.setc(t.c_str());
                PBT_CHECK(!c.value_equals(*vars[a]) && !vars[a]->value_equals(c), log << ": value_equals of " << quote(t) << " and " << quote(model[a].str));
                PBT_CHECK(c != *vars[a] && !(*vars[a] == c), log << ": equality of " << quote(t) << " and " << quote(model[a].str));
            }
        }
        bool e1 = *vars[a] == *vars[b], e2 = *vars[b] == *vars[a];
        PBT_CHECK(e1 == e2, log << ": equality is not symmetric");
        if (vars[a]->info() == vars[b]->info())
        {
            bool me = model[a].same_value(model[b]) && model[a].attrs.size() == model[b].attrs.size();
            if (me)
                for (auto i = model[a].attrs.begin(), j = model[b].attrs.begin(); i != model[a].attrs.end(); ++i, ++j)
                {
                    if (i->first != j->first || !i->second.same_value(j->second)) me = false;
                    // Attributes with the same code and different types
                    else if (i->second.info != j->second.info) return;
                }
            PBT_CHECK(e1 == me, log << ": equality of v" << a << " and v" << b << " is " << e1 << ": " << model[a].show() << " " << model[b].show());
        }
    }
};

void sequence(Ctx& ctx, std::string& log, unsigned& interesting)
{
    Gen& g = ctx.g;
    State st(g);
    unsigned ninfo = 2 + (unsigned)g.draw(4);
    for (unsigned i = 0; i < ninfo; ++i)
        switch (g.draw(5))
        {
            case 0: st.infos.push_back(st.pool.string(g)); break;
            case 1: st.infos.push_back(st.pool.binary(g)); break;
            case 2: st.infos.push_back(st.pool.shipped(g)); break;
            default: st.infos.push_back(st.pool.numeric(g)); break;
        }
    for (unsigned i = 0; i < 4; ++i)
        st.attr_infos.push_back(st.pool.any(g));
    static const unsigned attrcodes[] = { 1, 7, 15, 40 };
    for (unsigned c: attrcodes)
    {
        _Varinfo* vi = st.pool.add();
        vi->set_bufr(fxy(0, 33, c), "ATTR", "PERCENT", 0, 3, 0, 7);
        st.attr_infos.push_back(vi);
    }
    unsigned nvars = 2 + (unsigned)g.draw(3);
    for (unsigned i = 0; i < nvars; ++i)
    {
        MV m;
        st.vars.push_back(st.make(g.pick(st.infos), m));
        st.model.push_back(m);
    }
    unsigned steps = 1 + g.size(25);
    for (unsigned n = 0; n < steps; ++n)
    {
        if (g.exhausted()) break;
        st.step(n);
    }
    interesting = st.interesting;
    log = st.log;
}

void run(Ctx& ctx)
{
    unsigned interesting = 0;
    uint64_t h = 0;
    static char keep[4096];
    keep[0] = 0;
    size_t before = __sanitizer_get_current_allocated_bytes();
    {
        std::string log;
        sequence(ctx, log, interesting);
        h = hash_str(log);
        if (ctx.want_sample || ctx.verbose) snprintf(keep, sizeof(keep), "%s", log.c_str());
    }
    size_t after = __sanitizer_get_current_allocated_bytes();
    // Thread-local text buffers and lazily built library caches are bounded:
    // a leak is memory that is never given back
    if (after > before && ctx.g.record && *ctx.g.record_len == ctx.g.pos)
    {
        // Lazily built caches are allocated once: run the same case again and
        // see if it grows every time
        std::vector<uint64_t> tape(ctx.g.record, ctx.g.record + ctx.g.pos);
        size_t growth[3];
        for (unsigned i = 0; i < 3; ++i)
        {
            size_t b = __sanitizer_get_current_allocated_bytes();
            {
                Gen g;
                g.replay = tape.data();
                g.replay_len = tape.size();
                Ctx c(g);
                std::string log;
                sequence(c, log, interesting);
            }
            size_t a = __sanitizer_get_current_allocated_bytes();
            growth[i] = a > b ? a - b : 0;
        }
        if (growth[0] && growth[1] && growth[2])
            PBT_FAIL("memory leak: " << growth[2] << " bytes after all variables are gone");
    }
    if (interesting >= 2) ctx.nontrivial(h);
    ctx.label(interesting >= 2 ? "2 or more ownership operations" : "few ownership operations");
    ctx.set_sample(keep);
}

void init()
{
    init_tables();
    // Per-thread buffers
    _Varinfo vi;
    vi.set_bufr(0, "x", "K", 0, 3, 0, 8);
    Var v(&vi, 1);
    v.enqc();
}

pbt::Register r({"C07",
    "A case is a random history of up to 26 operations (construct, set, unset, copy/move construct and assign incl. self, seta in its three forms, unseta, clear_attrs, setattrs, setval, set, converting construct) over 2-4 variables of mixed types, compared after every operation with a value model, under ASan/UBSan and a leak check. Non-trivial: at least 2 ownership operations, distinct by operation sequence.",
    run, init, 800000, 20000000, true});
}
