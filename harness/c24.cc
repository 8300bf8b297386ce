// C24: Lua access to a variable equals the library's own view
#include "refbufr.h"
#include <wreport/error.h>
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
}

using namespace wreport;
using namespace pbt;
using namespace model;

namespace {

struct Lua
{
    lua_State* L;
    Lua() : L(luaL_newstate()) { luaL_openlibs(L); }
    ~Lua() { lua_close(L); }
};

struct Got
{
    bool err = false;
    int type = LUA_TNIL;
    std::string s;
    double d = 0;
    lua_Integer i = 0;
    bool is_int = false;
};

// Run a chunk that returns one value
Got eval(lua_State* L, const std::string& code)
{
    Got r;
    int top = lua_gettop(L);
    PBT_CHECK(luaL_loadstring(L, code.c_str()) == 0, "chunk does not load: " << code << ": " << lua_tostring(L, -1));
    int rc = lua_pcall(L, 0, 1, 0);
    PBT_CHECK(lua_gettop(L) == top + 1, "the stack has " << lua_gettop(L) - top << " values after " << code);
    if (rc)
    {
        PBT_CHECK(rc == LUA_ERRRUN, "Lua error " << rc);
        r.err = true;
        r.s = lua_tostring(L, -1) ? lua_tostring(L, -1) : "(not a string)";
    } else {
        r.type = lua_type(L, -1);
        if (r.type == LUA_TSTRING) { size_t n; const char* p = lua_tolstring(L, -1, &n); r.s.assign(p, n); }
        if (r.type == LUA_TNUMBER) { r.is_int = lua_isinteger(L, -1); r.d = lua_tonumber(L, -1); r.i = lua_tointeger(L, -1); }
    }
    lua_settop(L, top);
    return r;
}

struct Slot
{
    std::unique_ptr<Var> var;
    bool global = false;
    std::string name;
};

void push(lua_State* L, Slot& s, Gen& g)
{
    int top = lua_gettop(L);
    if (g.boolean())
    {
        s.var->lua_push(L);
        PBT_CHECK(lua_gettop(L) == top + 1, "lua_push left " << lua_gettop(L) - top << " values on the stack");
        PBT_CHECK(Var::lua_check(L, g.boolean() ? -1 : top + 1) == s.var.get(), "lua_check does not give the variable pushed");
    } else {
        const Var& cv = *s.var;
        cv.lua_push(L);
        PBT_CHECK(lua_gettop(L) == top + 1, "lua_push left " << lua_gettop(L) - top << " values on the stack");
    }
    PBT_CHECK(Var::lua_const_check(L, g.boolean() ? -1 : top + 1) == s.var.get(), "lua_const_check does not give the variable pushed");
    lua_setglobal(L, s.name.c_str());
}

void change(Gen& g, Var& v, InfoPool& pool)
{
    Varinfo info = v.info();
    if (g.chance(1, 5)) { v.unset(); return; }
    switch (info->type)
    {
        case Vartype::String: v.setc(("S" + g.ascii(g.draw(info->len))).c_str()); break;
        case Vartype::Binary:
        {
            std::string b = g.bytes(info->len);
            if (unsigned t = info->bit_len % 8) b.back() &= (1 << t) - 1;
            v.sets(b);
            break;
        }
        default: if (info->imin <= info->imax) v.seti((int)g.edgy(info->imin, info->imax)); break;
    }
    if (g.chance(1, 5))
    {
        Var a(pool.shipped(g));
        v.seta(a);
    }
}

void run(Ctx& c)
{
    Gen& g = c.g;
    c.evaluations = 1;
    Lua lua;
    lua_State* L = lua.L;
    InfoPool pool;
    std::vector<Slot> vars;
    unsigned nops = 1 + g.size(24);
    std::string log;
    for (unsigned op = 0; op < nops; ++op)
    {
        if (vars.empty() || g.chance(1, 6))
        {
            Slot s;
            s.var.reset(new Var(g.boolean() ? pool.any(g) : pool.shipped(g)));
            s.name = strf("v%zu", vars.size());
            if (g.chance(4, 5)) change(g, *s.var, pool);
            push(L, s, g);
            log += " " + s.name + "=" + describe(s.var->info());
            vars.push_back(std::move(s));
        }
        Slot& s = vars[g.draw(vars.size())];
        Var& v = *s.var;
        // Ways to call a method
        auto call = [&](const char* m) {
            switch (g.draw(3))
            {
                case 0: return "return " + s.name + ":" + m + "()";
                case 1: return "return " + s.name + "." + m + "(" + s.name + ")";
                default: return "local x = " + s.name + " collectgarbage() return getmetatable(x)." + m + "(x)";
            }
        };
        bool num = v.info()->type == Vartype::Integer || v.info()->type == Vartype::Decimal;
        unsigned kind = (unsigned)g.draw(8);
        switch (kind)
        {
            case 0:
            {
                Got r = eval(L, call("code"));
                std::string e = strf("%c%02u%03u", "BRCD"[F(v.code())], X(v.code()), Y(v.code()));
                PBT_CHECK(!r.err && r.type == LUA_TSTRING && r.s == e, "code() gives " << quote(r.s) << " instead of " << e);
                break;
            }
            case 1:
            {
                Got r = eval(L, call("enqi"));
                std::string msg;
                int val = 0;
                Err e = v.isset() ? caught([&] { val = v.enqi(); }, &msg) : E_NONE;
                if (!v.isset()) PBT_CHECK(!r.err && r.type == LUA_TNIL, "enqi() of an unset variable gives type " << r.type << " " << r.s);
                else if (e != E_NONE) PBT_CHECK(r.err && r.s == msg, "enqi() gives " << (r.err ? r.s : "no error") << " instead of the error " << msg);
                else PBT_CHECK(!r.err && r.type == LUA_TNUMBER && r.is_int && r.i == val, "enqi() gives " << r.s << r.i << " instead of " << val);
                if (r.err) c.label("errors");
                break;
            }
            case 2:
            {
                Got r = eval(L, call("enqd"));
                std::string msg;
                double val = 0;
                Err e = v.isset() ? caught([&] { val = v.enqd(); }, &msg) : E_NONE;
                if (!v.isset()) PBT_CHECK(!r.err && r.type == LUA_TNIL, "enqd() of an unset variable gives type " << r.type << " " << r.s);
                else if (e != E_NONE) PBT_CHECK(r.err && r.s == msg, "enqd() gives " << (r.err ? r.s : "no error") << " instead of the error " << msg);
                else PBT_CHECK(!r.err && r.type == LUA_TNUMBER && r.d == val, "enqd() gives " << r.s << r.d << " instead of " << val);
                break;
            }
            case 3:
            {
                Got r = eval(L, call("enqc"));
                std::string msg, val;
                Err e = v.isset() ? caught([&] { val = v.info()->type == Vartype::Binary ? std::string(v.enqc(), v.info()->len) : std::string(v.enqc()); }, &msg) : E_NONE;
                if (!v.isset()) PBT_CHECK(!r.err && r.type == LUA_TNIL, "enqc() of an unset variable gives type " << r.type << " " << r.s);
                else if (e != E_NONE) PBT_CHECK(r.err && r.s == msg, "enqc() gives " << (r.err ? r.s : "no error") << " instead of the error " << msg);
                else PBT_CHECK(!r.err && r.type == LUA_TSTRING && r.s == val, "enqc() gives " << quote(r.s) << " instead of " << quote(val) << " for " << describe(v.info()));
                if (v.info()->type == Vartype::Binary) c.label("binary");
                break;
            }
            case 4:
            {
                Got r = eval(L, g.boolean() ? "return tostring(" + s.name + ")" : call("__tostring"));
                std::string msg, val;
                Err e = caught([&] { val = v.format("(undef)"); }, &msg);
                if (e != E_NONE) PBT_CHECK(r.err, "tostring() gives no error instead of " << msg);
                else PBT_CHECK(!r.err && r.type == LUA_TSTRING && r.s == val, "tostring() gives " << quote(r.s) << " instead of " << quote(val));
                if (!v.isset()) PBT_CHECK(r.s == "(undef)", "tostring() of an unset variable is " << quote(r.s));
                break;
            }
            case 5:
            {
                // Wrong arguments are errors
                static const char* const wrong[] = {".enqi()", ".enqd()", ".enqc()", ".code()", ".enqi(1)", ".enqd('x')", ".enqc({})", ".code(nil)", ".enqi(io.stdout)", ".nothing()"};
                std::string w = g.pick(wrong);
                Got r = eval(L, "return " + s.name + w);
                PBT_CHECK(r.err, w << " is not an error");
                break;
            }
            case 6:
                change(g, v, pool);
                log += " change " + s.name;
                break;
            case 7:
                push(L, s, g);
                if (g.boolean()) eval(L, "collectgarbage() return 1");
                break;
        }
        (void)num;
    }
    PBT_CHECK(lua_gettop(L) == 0, "values left on the stack");
    // Collecting the Lua objects leaves the variables alone
    eval(L, "for k in pairs(_G) do if k:match('^v%d') then _G[k] = nil end end collectgarbage() collectgarbage() return 1");
    for (auto& s: vars) { std::string t = s.var->format("x"); if (t.empty()) c.label("empty text"); }
    c.set_sample(log);
    if (nops > 2) c.nontrivial(log);
}

Register r({"C24", "histories of calls of the Lua methods, changes and garbage collections over random variables of any definition; each result compared with the one of the C++ API; non trivial: more than two operations; distinct: variables and operations",
        run, init_tables, 60000, 2000000, true});
}
