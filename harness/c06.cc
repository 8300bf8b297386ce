// C06: a variable only ever holds values in its domain; bad values obey options
#include "model.h"
#include <wreport/options.h>
#include <cfloat>
#include <climits>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

struct Hook : public options::DomainErrorHook
{
    unsigned calls = 0;
    Var* last = nullptr;
    bool is_int = false;
    int32_t ival = 0;
    double dval = 0;
    int action = 0;   // 0: nothing, 1: unset, 2: set to imin
    void act(Var& var)
    {
        if (action == 1) var.unset();
        else if (action == 2) var.seti(var.info()->imin);
    }
    void handle_domain_error_int(Var& var, int32_t val) override { ++calls; last = &var; is_int = true; ival = val; act(var); }
    void handle_domain_error_double(Var& var, double val) override { ++calls; last = &var; is_int = false; dval = val; act(var); }
};

enum Mode { M_DEFAULT, M_SILENT, M_CLAMP, M_HOOK };
const char* mode_names[] = { "default", "silent", "clamp", "hook" };

// What a set operation has to do
enum Want { W_VALUE, W_LOW, W_HIGH, W_NAN, W_EITHER_LOW, W_EITHER_HIGH, W_TYPE, W_UNSET };

struct Restore
{
    ~Restore()
    {
        options::var_silent_domain_errors = false;
        options::var_clamp_domain_errors = false;
        options::var_hook_domain_errors = nullptr;
    }
};

void check_unset_reads(const Var& v, const std::string& what)
{
    PBT_CHECK(caught([&] { v.enqi(); }) == E_NOTFOUND, what << ": enqi on unset");
    PBT_CHECK(caught([&] { v.enqd(); }) == E_NOTFOUND, what << ": enqd on unset");
    PBT_CHECK(caught([&] { v.enqc(); }) == E_NOTFOUND, what << ": enqc on unset");
    PBT_CHECK(caught([&] { v.enqs(); }) == E_NOTFOUND, what << ": enqs on unset");
    PBT_CHECK(v.enq<int>(-77) == -77, what << ": enq default int");
    PBT_CHECK(v.enq<double>(-7.5) == -7.5, what << ": enq default double");
    PBT_CHECK(v.enq<std::string>("dflt") == "dflt", what << ": enq default string");
    PBT_CHECK(v.format("undef!") == "undef!", what << ": format of unset");
}

void check_raw(const Var& v, int64_t raw, const std::string& what)
{
    PBT_CHECK(v.isset(), what << ": variable is unset, expected raw value " << raw);
    PBT_CHECK(v.enqi() == raw, what << ": raw value " << v.enqi() << ", expected " << raw);
    PBT_CHECK(v.enqs() == std::to_string(raw), what << ": enqs " << v.enqs() << ", expected " << raw);
    PBT_CHECK(std::to_string(raw) == v.enqc(), what << ": enqc " << v.enqc() << ", expected " << raw);
    long double exp = scaled(raw, v.info()->scale);
    PBT_CHECK(fabsl(v.enqd() - exp) <= fabsl(exp) * 1e-15L, what << ": enqd " << strf("%.17g", v.enqd()));
    PBT_CHECK(v.enq<int>(-1) == raw, what << ": enq<int>");
}

void run_numeric(Ctx& ctx, Varinfo info, InfoPool& pool)
{
    Gen& g = ctx.g;
    int64_t imin, imax;
    model::range(X(info->code), info->len, info->bit_ref, info->bit_len, imin, imax);
    if (imin > imax) { ctx.label("empty range"); throw Discard("empty range"); }
    Mode mode = (Mode)g.draw(4);
    Hook hook;
    hook.action = (int)g.draw(3);
    Restore restore;
    switch (mode)
    {
        case M_SILENT: options::var_silent_domain_errors = true; break;
        case M_CLAMP: options::var_clamp_domain_errors = true; break;
        case M_HOOK: options::var_hook_domain_errors = &hook; break;
        default: break;
    }
    Var var(info);
    // Model of the variable
    bool set = false;
    int64_t raw = 0;
    unsigned n = 1 + (unsigned)g.size(5);
    for (unsigned step = 0; step < n; ++step)
    {
        std::string what = describe(info) + strf(" [%s] step %u ", mode_names[mode], step);
        Want want;
        int64_t want_raw = 0;
        double tol = 0;          // tolerance on the raw value, for reals
        long double want_x = 0;
        std::function<void()> op;
        bool fresh = false;      // operate through a constructor
        unsigned kind = (unsigned)g.draw(7);
        unsigned hook_before = hook.calls;
        double dval = 0;
        Var* target = &var;
        std::unique_ptr<Var> ctor;
        auto classify_int = [&](int64_t v) {
            if (v < imin) return W_LOW;
            if (v > imax) return W_HIGH;
            return W_VALUE;
        };
        switch (kind)
        {
            case 0: case 1: {
                int64_t v = g.boolean() ? g.edgy(INT_MIN, INT_MAX) : g.edgy(std::max<int64_t>(imin - 3, INT_MIN), std::min<int64_t>(imax + 3, INT_MAX));
                want = classify_int(v);
                want_raw = v;
                if (kind == 1 && g.boolean())
                {
                    fresh = true;
                    op = [&ctor, info, v] { ctor.reset(new Var(info, (int)v)); };
                } else if (g.boolean())
                    op = [&var, v] { var.set((int)v); };
                else
                    op = [&var, v] { var.seti((int)v); };
                what += strf("seti(%lld)", (long long)v);
                break;
            }
            case 2: case 3: case 4: {
                switch (g.draw(4))
                {
                    case 0: dval = g.any_double(); break;
                    case 1: {
                        int64_t r = g.edgy(imin, imax);
                        dval = (double)scaled(r, info->scale);
                        break;
                    }
                    case 2: {
                        int64_t r = g.boolean() ? imax : imin;
                        dval = (double)((long double)scaled(1, info->scale) * (r + (long double)g.range(-3000, 3000) / 1000.0L));
                        break;
                    }
                    case 3: {
                        int64_t r = g.edgy(imin, imax);
                        dval = (double)((long double)scaled(1, info->scale) * (r + (long double)g.range(-1000, 1000) / 1000.0L));
                        break;
                    }
                }
                if (std::isnan(dval)) want = W_NAN;
                else
                {
                    long double x = std::isinf(dval) ? (long double)dval : (long double)dval * (info->scale >= 0 ? scaled(1, -info->scale) : 1.0L / scaled(1, info->scale));
                    want_x = x;
                    tol = 0.5 + 1e-6;
                    if (dval >= info->dmin && dval <= info->dmax) want = W_VALUE;
                    else if (x > imax + 0.51L) want = W_HIGH;
                    else if (x < imin - 0.51L) want = W_LOW;
                    else want = x < imin + 0.5L && x < imax ? W_EITHER_LOW : W_EITHER_HIGH;
                }
                if (g.chance(1, 4))
                {
                    fresh = true;
                    op = [&ctor, info, &dval] { ctor.reset(new Var(info, dval)); };
                } else if (g.boolean())
                    op = [&var, &dval] { var.set(dval); };
                else
                    op = [&var, &dval] { var.setd(dval); };
                what += strf("setd(%.17g)", dval);
                break;
            }
            case 5: {
                // Text with a raw integer
                std::string text;
                if (g.chance(1, 4))
                {
                    bool neg = g.boolean();
                    unsigned nd = (unsigned)g.range(8, 25);
                    if (neg) text += "-";
                    for (unsigned i = 0; i < nd; ++i) text += (char)('0' + g.draw(10));
                }
                else
                    text = std::to_string(g.boolean() ? g.edgy(-5000000000ll, 5000000000ll) : g.edgy(imin - 3, imax + 3));
                if (g.chance(1, 6))
                {
                    // Make it not a number
                    static const char* junk[] = { "x", ".", " ", "+", "e1" };
                    text.insert((size_t)g.range(text[0] == '-' ? 1 : 0, (int64_t)text.size()), g.pick(junk));
                    want = W_UNSET;
                } else {
                    // Saturate: only the comparison with the range matters
                    long double v = strtold(text.c_str(), nullptr);
                    want = v < imin ? W_LOW : v > imax ? W_HIGH : W_VALUE;
                    want_raw = want == W_VALUE ? (int64_t)v : 0;
                }
                if (g.chance(1, 4))
                {
                    fresh = true;
                    if (g.boolean())
                        op = [&ctor, info, text] { ctor.reset(new Var(info, text)); };
                    else
                        op = [&ctor, info, text] { ctor.reset(new Var(info, text.c_str())); };
                }
                else switch (g.draw(4))
                {
                    case 0: op = [&var, text] { var.setc(text.c_str()); }; break;
                    case 1: op = [&var, text] { var.sets(text); }; break;
                    case 2: op = [&var, text] { var.set(text); }; break;
                    default: op = [&var, text] { var.set(text.c_str()); }; break;
                }
                what += "setc(" + quote(text) + ")";
                break;
            }
            default: {
                // Copy the value of another variable with the same unit and different range
                _Varinfo other = *info;
                other.len = 10;
                other.bit_len = 0;
                other.bit_ref = 0;
                other.compute_range();
                int64_t v = g.boolean() ? g.edgy(INT_MIN, INT_MAX) : g.edgy(std::max<int64_t>(imin - 3, INT_MIN), std::min<int64_t>(imax + 3, INT_MAX));
                bool unset = g.chance(1, 8);
                if (unset) want = W_UNSET;
                else { want = classify_int(v); want_raw = v; }
                what += strf("setval(raw %lld)", (long long)v);
                _Varinfo* keep = pool.add();
                *keep = other;
                auto src2 = std::make_shared<Var>(keep);
                if (!unset) src2->seti((int)v);
                op = [&var, src2] { var.setval(*src2); };
                break;
            }
        }
        std::string msg;
        Err err = caught(op, &msg);
        if (fresh)
        {
            target = ctor.get();
            if (!target)
            {
                PBT_CHECK(err != E_NONE, what);
            }
        }
        unsigned hooked = hook.calls - hook_before;

        bool bad = want == W_LOW || want == W_HIGH || want == W_NAN;
        bool either = want == W_EITHER_LOW || want == W_EITHER_HIGH;
        if (either)
        {
            // Between the bound and half a unit beyond it, both rounding and refusing are acceptable
            bad = err != E_NONE || hooked || (target && !target->isset());
            if (mode == M_CLAMP) bad = false;
        }
        if (!bad)
        {
            PBT_CHECK(err == E_NONE, what << ": unexpected " << errname(err) << " " << msg);
            PBT_CHECK(hooked == 0, what << ": hook called for a good value");
            if (want == W_UNSET)
            {
                PBT_CHECK(!target->isset(), what << ": should be unset");
                if (!fresh) set = false;
            } else if (tol > 0) {
                PBT_CHECK(target->isset(), what << ": is unset");
                int64_t got = target->enqi();
                PBT_CHECK(got >= imin && got <= imax, what << ": raw value " << got << " is out of range");
                if (!either)
                    PBT_CHECK(fabsl((long double)got - want_x) <= tol, what << ": raw value " << got << " is not the nearest one to " << (double)want_x);
                check_raw(*target, got, what);
                if (!fresh) { set = true; raw = got; }
                ctx.nontrivial(hash_str(describe(info)) ^ (uint64_t)got ^ (uint64_t)mode << 40);
            } else {
                check_raw(*target, want_raw, what);
                if (!fresh) { set = true; raw = want_raw; }
                ctx.nontrivial(hash_str(describe(info)) ^ (uint64_t)want_raw ^ (uint64_t)mode << 40);
            }
        } else {
            ctx.label(strf("out of domain %s", mode_names[mode]));
            ctx.nontrivial(hash_str(what));
            Mode eff = mode;
            if (want == W_NAN && mode == M_CLAMP) eff = M_DEFAULT;
            switch (eff)
            {
                case M_DEFAULT:
                    PBT_CHECK(err == E_DOMAIN, what << ": expected a domain error, got " << errname(err));
                    PBT_CHECK(hooked == 0, what << ": hook called");
                    if (target) { PBT_CHECK(!target->isset(), what << ": still set after a domain error"); }
                    if (!fresh) set = false;
                    break;
                case M_SILENT:
                    PBT_CHECK(err == E_NONE, what << ": unexpected " << errname(err) << " " << msg);
                    PBT_CHECK(hooked == 0, what << ": hook called");
                    PBT_CHECK(!target->isset(), what << ": should be unset");
                    if (!fresh) set = false;
                    break;
                case M_CLAMP: {
                    PBT_CHECK(err == E_NONE, what << ": unexpected " << errname(err) << " " << msg);
                    PBT_CHECK(hooked == 0, what << ": hook called");
                    int64_t lim = want == W_LOW ? imin : imax;
                    check_raw(*target, lim, what);
                    if (!fresh) { set = true; raw = lim; }
                    break;
                }
                case M_HOOK:
                    PBT_CHECK(err == E_NONE, what << ": unexpected " << errname(err) << " " << msg);
                    PBT_CHECK(hooked == 1, what << ": hook called " << hooked << " times");
                    if (!fresh) PBT_CHECK(hook.last == &var, what << ": hook called for another variable");
                    if (kind <= 1)
                        PBT_CHECK(hook.is_int && hook.ival == want_raw, what << ": hook was given another value");
                    else if (kind >= 2 && kind <= 4 && !hook.is_int)
                        PBT_CHECK(hook.dval == dval || (std::isnan(dval) && std::isnan(hook.dval)), what << ": hook was given " << hook.dval);
                    // Only what the hook does changes the variable
                    {
                        bool eset = fresh ? false : set;
                        int64_t eraw = raw;
                        if (hook.action == 1) eset = false;
                        else if (hook.action == 2) { eset = true; eraw = imin; }
                        if (eset) check_raw(*target, eraw, what);
                        else PBT_CHECK(!target->isset(), what << ": set although the hook did not set it");
                        if (!fresh) { set = eset; raw = eraw; }
                    }
                    break;
            }
        }
        // Whatever happened, the variable matches the model
        if (set) check_raw(var, raw, what + " (variable)");
        else
        {
            PBT_CHECK(!var.isset(), what << ": variable should be unset");
            check_unset_reads(var, what);
        }
        if (var.isset()) PBT_CHECK(var.enqi() >= imin && var.enqi() <= imax, what << ": raw value out of range");
        if (g.chance(1, 10))
        {
            var.unset();
            set = false;
            check_unset_reads(var, what + " unset");
        }
        ctx.set_sample((step ? "; " : "") + what);
    }
}

void run_text(Ctx& ctx, Varinfo info)
{
    Gen& g = ctx.g;
    Var var(info);
    check_unset_reads(var, describe(info));
    unsigned n = 1 + g.size(4);
    bool set = false;
    std::string cur;
    for (unsigned i = 0; i < n; ++i)
    {
        std::string what = describe(info) + strf(" step %u ", i);
        // Numbers cannot be stored
        if (g.chance(1, 4))
        {
            Err e = g.boolean() ? caught([&] { var.seti((int)g.range(-10, 10)); }) : caught([&] { var.setd(1.5); });
            PBT_CHECK(e == E_TYPE, what << "set number: expected a type error, got " << errname(e));
        }
        std::string val;
        size_t len = g.boolean() ? g.size(info->len + 5) : (size_t)g.range(info->len > 2 ? info->len - 2 : 0, info->len + 2);
        if (info->type == Vartype::String)
        {
            for (size_t j = 0; j < len; ++j) val += (char)(1 + (g.draw(255) + 64) % 255);
            switch (g.draw(5))
            {
                case 0: var.setc(val.c_str()); break;
                case 1: var.sets(val); break;
                case 2: var.setc_truncate(val.c_str()); break;
                case 3: if (val.empty()) var.setc(""); else var.setf(val.c_str()); break;
                case 4: var.set(val); break;
            }
            cur = val.substr(0, info->len);
            what += "setc " + quote(val);
        } else {
            for (size_t j = 0; j < len; ++j) val += (char)g.byte();
            if (g.boolean() && val.size() >= info->len)
                var.setc(val.data());
            else
                var.sets(val);
            what += "sets " + hex(val);
            cur = val.substr(0, info->len);
            cur.resize(info->len, 0);
            if (val.size() >= info->len && info->bit_len % 8)
                cur[info->len - 1] = (char)(cur[info->len - 1] & ((1 << (info->bit_len % 8)) - 1));
        }
        set = true;
        PBT_CHECK(var.isset(), what << ": unset");
        PBT_CHECK(var.enqs() == cur, what << ": enqs gives " << quote(var.enqs()) << " expected " << quote(cur));
        PBT_CHECK(memcmp(var.enqc(), cur.c_str(), cur.size() + 1) == 0, what << ": enqc");
        PBT_CHECK(caught([&] { var.enqi(); }) == E_TYPE, what << ": enqi of text");
        PBT_CHECK(caught([&] { var.enqd(); }) == E_TYPE, what << ": enqd of text");
        ctx.nontrivial(what);
        ctx.set_sample((i ? "; " : "") + what);
        if (g.chance(1, 5))
        {
            var.unset();
            check_unset_reads(var, what);
        }
    }
    (void)set;
}

void run(Ctx& ctx)
{
    InfoPool pool;
    Varinfo info = pool.any(ctx.g);
    ctx.label(vartype_format(info->type));
    if (info->type == Vartype::Integer || info->type == Vartype::Decimal)
        run_numeric(ctx, info, pool);
    else
        run_text(ctx, info);
}

pbt::Register r({"C06",
    "A case is one variable definition (shipped or synthetic), one domain-error option setting and a sequence of set operations (int, real incl. NaN/inf/bounds, digit strings, other variables, constructors, unset) checked step by step against an integer model. Non-trivial: a value stored exactly or an out-of-domain value handled as the options say, distinct by definition, value and mode.",
    run, init_tables, 1200000, 40000000, true});
}
