// C18: options are per thread, overrides are scoped, threads do not interfere.
// Built with ThreadSanitizer: a data race is a violation whatever its effects.
#include "model.h"
#include <wreport/options.h>
#include <wreport/bulletin.h>
#include <wreport/conv.h>
#include <wreport/notes.h>
#include <wreport/dtable.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <wreport/opcodes.h>
#include <thread>
#include <atomic>
#include <sstream>
#include <cstdlib>
#include <dirent.h>
#include <algorithm>

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

struct Sample { std::string name, data; bool crex; };
std::vector<Sample> samples;
std::vector<Varinfo> numeric_infos, string_infos;

struct Hook : options::DomainErrorHook
{
    std::ostream* out = nullptr;
    void handle_domain_error_int(Var& v, int32_t val) override { *out << "hook(" << val << ")"; v.unset(); }
    void handle_domain_error_double(Var& v, double val) override { *out << "hookd(" << val << ")"; v.unset(); }
};

struct Op
{
    enum Kind { SET_I, SET_D, SET_C, OVERRIDE_SILENT, OVERRIDE_CLAMP, OVERRIDE_HOOK, CONVERT, QUERY, ALTERED, DECODE, REENCODE, DIFF, NOTES, TEXT, TABLES, THROW } kind;
    Varinfo info = nullptr;
    int i = 0;
    double d = 0;
    std::string s;
    bool flag = false, leave_by_exception = false;
    unsigned idx = 0;
    Varcode code = 0;
    std::vector<Op> body;
};

struct Leave {};

std::string memprint(const std::function<void(FILE*)>& f)
{
    char* buf = nullptr;
    size_t len = 0;
    FILE* fp = open_memstream(&buf, &len);
    f(fp);
    fclose(fp);
    std::string res(buf, len);
    free(buf);
    return res;
}

// Operations that load nothing: they can be run concurrently from the start
bool cold_only = false;

Op gen_op(Gen& g, unsigned depth)
{
    Op o;
    static const unsigned leaf[] = { Op::SET_I, Op::SET_D, Op::SET_C, Op::CONVERT, Op::QUERY, Op::ALTERED, Op::DECODE, Op::REENCODE, Op::DIFF, Op::NOTES, Op::TEXT, Op::TABLES, Op::SET_I, Op::SET_D, Op::SET_C };
    if (depth < 4 && g.chance(1, 3))
        o.kind = (Op::Kind)(Op::OVERRIDE_SILENT + g.draw(3));
    else
        o.kind = (Op::Kind)g.pick(leaf);
    if (cold_only && (o.kind == Op::ALTERED || o.kind == Op::TABLES)) o.kind = Op::CONVERT;
    if (cold_only && (o.kind == Op::DECODE || o.kind == Op::REENCODE)) o.kind = Op::DIFF;
    o.flag = g.boolean();
    switch (o.kind)
    {
        case Op::OVERRIDE_SILENT: case Op::OVERRIDE_CLAMP: case Op::OVERRIDE_HOOK:
        {
            unsigned n = 1 + g.size(4);
            for (unsigned i = 0; i < n; ++i) o.body.push_back(gen_op(g, depth + 1));
            o.leave_by_exception = g.chance(1, 3);
            if (o.leave_by_exception) { Op t; t.kind = Op::THROW; o.body.push_back(t); }
            break;
        }
        case Op::SET_I: case Op::SET_D: case Op::SET_C: case Op::TEXT: case Op::DIFF:
            o.info = g.pick(numeric_infos);
            o.i = g.boolean() ? (int)g.edgy(o.info->imin, o.info->imax) : (int)g.edgy(INT32_MIN + 1, INT32_MAX);
            o.d = (double)scaled(o.i, o.info->scale) * (g.chance(1, 4) ? 1000.0 : 1.0);
            break;
        case Op::CONVERT: o.d = (double)g.range(-5000, 90000) / 10.0; o.idx = (unsigned)g.draw(6); break;
        case Op::QUERY: case Op::ALTERED:
            o.info = g.pick(numeric_infos);
            o.i = (int)g.range(-2, 2);
            o.idx = (unsigned)g.range(1, 4);
            break;
        case Op::DECODE: case Op::REENCODE: case Op::TABLES: o.idx = (unsigned)g.draw(samples.size()); break;
        case Op::NOTES: o.i = (int)g.draw(1000); break;
        default: break;
    }
    return o;
}

unsigned count_ops(const std::vector<Op>& v)
{
    unsigned res = 0;
    for (const auto& o: v) res += 1 + count_ops(o.body);
    return res;
}

void state(std::ostream& out)
{
    out << "{" << options::var_silent_domain_errors << options::var_clamp_domain_errors << (options::var_hook_domain_errors != nullptr) << "}";
}

void exec(const std::vector<Op>& ops, std::ostream& out);

void exec(const Op& o, std::ostream& out)
{
    static const char* convs[][2] = { { "K", "C" }, { "M", "FT" }, { "PA", "HPA" }, { "DEGREE TRUE", "CODE TABLE 14" }, { "KELVIN", "C/10" }, { "CODE TABLE 20003", "WMO CODE TABLE 4677" } };
    auto guarded = [&](const std::function<void()>& f) {
        std::string msg;
        Err e = caught(f, &msg);
        if (e != E_NONE) out << "!" << errname(e) << ":" << msg;
    };
    switch (o.kind)
    {
        case Op::SET_I: { Var v(o.info); guarded([&] { v.seti(o.i); }); out << v.format("unset") << "|" << (v.isset() ? v.enqc() : "-"); break; }
        case Op::SET_D: { Var v(o.info); guarded([&] { v.setd(o.d); }); out << v.format("unset"); break; }
        case Op::SET_C: { Var v(o.info); guarded([&] { v.setc(strf("%d", o.i).c_str()); }); out << v.format("unset"); break; }
        case Op::TEXT:
        {
            // The pointer returned by enqc stays valid for this thread
            Var v(o.info, (int)std::min(std::max(o.i, o.info->imin), o.info->imax));
            const char* p = v.enqc();
            std::string first(p);
            std::string f = v.format();
            std::this_thread::yield();
            out << first << "|" << f << "|" << v.enqs() << "|" << memprint([&](FILE* fp) { v.print(fp); });
            break;
        }
        case Op::DIFF:
        {
            int val = std::min(std::max(o.i, o.info->imin), o.info->imax);
            Var a(o.info, val), b(o.info, val);
            Var qa(string_infos[0], "A"), qb(string_infos[0], "B");
            a.seta(qa);
            b.seta(qb);
            out << a.diff(b) << (a == b);
            break;
        }
        case Op::CONVERT: guarded([&] { out << convert_units(convs[o.idx][0], convs[o.idx][1], o.d); }); break;
        case Op::QUERY:
        {
            Varinfo i = main_btable()->query(o.info->code);
            out << i->desc << i->unit << i->scale << i->bit_ref << i->bit_len;
            break;
        }
        case Op::ALTERED:
            guarded([&] {
                Varinfo i = main_btable()->query_altered(o.info->code, o.info->scale + o.i, o.info->bit_len + o.idx > 32 ? 32 : o.info->bit_len + o.idx, o.info->bit_ref);
                out << i->scale << "/" << i->bit_len << "/" << i->imin << "/" << i->imax;
            });
            break;
        case Op::DECODE: case Op::REENCODE:
            guarded([&] {
                const Sample& s = samples[o.idx];
                std::unique_ptr<Bulletin> b;
                if (s.crex) b = CrexBulletin::decode(s.data, s.name.c_str());
                else b = BufrBulletin::decode(s.data, s.name.c_str());
                std::string text = memprint([&](FILE* fp) { b->print(fp); });
                if (o.flag) text += memprint([&](FILE* fp) { b->print_structured(fp); });
                out << text.size() << ":" << hash_str(text);
                if (o.kind == Op::REENCODE) { std::string e = b->encode(); out << "," << e.size() << ":" << hash_str(e); }
            });
            break;
        case Op::TABLES:
            guarded([&] {
                auto b = BufrBulletin::create();
                b->master_table_version_number = (uint8_t)(13 + o.idx % 3);
                b->load_tables();
                out << b->tables.btable->path();
                Opcodes ops = b->tables.dtable->query(WR_VAR(3, 1, 1));
                out << ops.size();
            });
            break;
        case Op::NOTES:
        {
            std::ostringstream own;
            std::ostream* old = notes::get_target();
            notes::set_target(own);
            notes::logf("note %d\n", o.i);
            std::this_thread::yield();
            notes::log() << "n" << o.i;
            out << own.str();
            static thread_local std::ostringstream sink;
            sink.str("");
            notes::set_target(old ? *old : sink);
            break;
        }
        case Op::OVERRIDE_SILENT:
        {
            auto ov = options::local_override(options::var_silent_domain_errors, o.flag);
            state(out);
            exec(o.body, out);
            break;
        }
        case Op::OVERRIDE_CLAMP:
        {
            auto ov = options::local_override(options::var_clamp_domain_errors, o.flag);
            state(out);
            exec(o.body, out);
            break;
        }
        case Op::OVERRIDE_HOOK:
        {
            Hook h;
            h.out = &out;
            options::DomainErrorHook* nh = o.flag ? (options::DomainErrorHook*)&h : (options::DomainErrorHook*)nullptr;
            auto ov = options::local_override(options::var_hook_domain_errors, nh);
            state(out);
            exec(o.body, out);
            break;
        }
        case Op::THROW: throw Leave();
    }
}

void exec(const std::vector<Op>& ops, std::ostream& out)
{
    for (const auto& o: ops)
    {
        bool silent = options::var_silent_domain_errors, clamp = options::var_clamp_domain_errors;
        options::DomainErrorHook* hook = options::var_hook_domain_errors;
        if (o.kind == Op::THROW) throw Leave();
        try { exec(o, out); } catch (Leave&) { out << "left"; if (!o.leave_by_exception) throw; }
        if (options::var_silent_domain_errors != silent || options::var_clamp_domain_errors != clamp || options::var_hook_domain_errors != hook)
            out << "OPTIONS NOT RESTORED";
        state(out);
        out << "\n";
    }
}

std::string run_script(const std::vector<Op>& ops)
{
    std::ostringstream out;
    state(out);
    exec(ops, out);
    state(out);
    return out.str();
}

void run(Ctx& ctx)
{
    Gen& g = ctx.g;
    // The first cases of each process run concurrently before running alone,
    // to see what happens the first time something is used
    cold_only = g.cycle(64) < 16;
    unsigned n = (unsigned)g.range(2, 4);
    std::vector<std::vector<Op>> scripts(n);
    unsigned total = 0;
    for (auto& s: scripts)
    {
        unsigned k = 1 + g.size(8);
        for (unsigned i = 0; i < k; ++i) s.push_back(gen_op(g, 0));
        total += count_ops(s);
    }
    // The main thread may have options set while it waits: the others must not see them
    bool main_silent = g.boolean(), main_clamp = g.boolean();

    std::vector<std::string> expected(n), got(n);
    // Alone: also loads the tables and the alterations that the scripts need
    auto alone = [&] {
        for (unsigned i = 0; i < n; ++i)
        {
            expected[i] = run_script(scripts[i]);
            PBT_CHECK(expected[i].compare(0, 5, "{000}") == 0 && expected[i].substr(expected[i].size() - 5) == "{000}", "options differ from the defaults after a script: " << expected[i]);
            PBT_CHECK(expected[i].find("NOT RESTORED") == std::string::npos, "option not restored when leaving an override: " << expected[i]);
        }
    };
    auto together = [&] {
        auto o1 = options::local_override(options::var_silent_domain_errors, main_silent);
        auto o2 = options::local_override(options::var_clamp_domain_errors, main_clamp);
        std::atomic<unsigned> ready(0);
        std::vector<std::thread> threads;
        for (unsigned i = 0; i < n; ++i)
            threads.emplace_back([&, i] {
                ready.fetch_add(1, std::memory_order_relaxed);
                while (ready.load(std::memory_order_relaxed) < n) std::this_thread::yield();
                try { got[i] = run_script(scripts[i]); }
                catch (std::exception& e) { got[i] = std::string("unexpected exception ") + e.what(); }
            });
        for (auto& t: threads) t.join();
        PBT_CHECK(options::var_silent_domain_errors == main_silent && options::var_clamp_domain_errors == main_clamp, "options of the main thread changed by other threads");
    };
    if (cold_only) { together(); alone(); ctx.label("concurrent first"); }
    else { alone(); together(); }
    for (unsigned i = 0; i < n; ++i)
        PBT_CHECK(got[i] == expected[i], "thread " << i << " of " << n << " gave " << quote(got[i]) << " instead of " << quote(expected[i]));
    std::string content;
    for (const auto& e: expected) content += e + "\f";
    ctx.label(strf("%u threads", n));
    if (content.find("{1") != std::string::npos || content.find("1}") != std::string::npos) ctx.label("with overrides");
    if (content.find("left") != std::string::npos) ctx.label("override left by exception");
    ctx.nontrivial(content);
    ctx.set_sample(strf("%u threads, %u operations, e.g. ", n, total) + quote(expected[0], 200));
}

void init()
{
    init_tables();
    main_btable()->iterate([](Varinfo i) {
        if (i->type == Vartype::Integer || i->type == Vartype::Decimal) { if (i->imin <= i->imax) numeric_infos.push_back(i); }
        else if (i->type == Vartype::String) string_infos.push_back(i);
        return true;
    });
    auto load = [](const std::string& dir, bool crex) {
        std::vector<std::string> names;
        DIR* d = opendir(dir.c_str());
        if (!d) return;
        while (dirent* e = readdir(d)) names.push_back(e->d_name);
        closedir(d);
        std::sort(names.begin(), names.end());
        for (const auto& n: names)
        {
            FILE* in = fopen((dir + "/" + n).c_str(), "rb");
            if (!in) continue;
            std::string buf;
            bool ok = false;
            if (caught([&] { ok = crex ? CrexBulletin::read(in, buf, n.c_str()) : BufrBulletin::read(in, buf, n.c_str()); }) == E_NONE && ok && buf.size() < 1500)
                samples.push_back({n, buf, crex});
            fclose(in);
        }
    };
    load(WR_REPO "/testdata/bufr", false);
    load(WR_REPO "/testdata/crex", true);
    if (samples.size() < 5) throw Fail("samples not found");
}

pbt::Register r({"C18",
    "A case is a set of 2-4 random scripts (nested scoped overrides of the three options left normally or by exception, assignments of in-domain and out-of-domain values, conversions, table lookups, decoding, printing and re-encoding of sample messages, comparisons and notes), run first one after the other and then concurrently, one per thread, while the main thread has overrides of its own. Results must be identical, options restored, and ThreadSanitizer must report no data race. Non-trivial: every case, distinct by the results of the scripts.",
    run, init, 6000, 250000, false});
}
