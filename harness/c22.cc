// C22: the Python bindings give the same results as the library
#include "model.h"
#include <Python.h>
#include <wreport/python.h>
#include <wreport/conv.h>
#include <wreport/tableinfo.h>
#include <wreport/vartable.h>
#include <sanitizer/allocator_interface.h>

using namespace wreport;
using namespace pbt;
using namespace model;

extern "C" PyObject* PyInit__wreport(void);

namespace {

PyObject* module = nullptr;
wrpy_c_api* api = nullptr;

struct P
{
    PyObject* o;
    P(PyObject* o = nullptr) : o(o) {}
    P(const P& p) : o(p.o) { Py_XINCREF(o); }
    P(P&& p) : o(p.o) { p.o = nullptr; }
    P& operator=(P p) { std::swap(o, p.o); return *this; }
    ~P() { Py_XDECREF(o); }
    operator PyObject*() const { return o; }
};
P borrowed(PyObject* o) { Py_XINCREF(o); return P(o); }
std::string text(PyObject* o)
{
    P r(o ? PyObject_Repr(o) : nullptr);
    if (!r.o) { PyErr_Clear(); return "(no representation)"; }
    const char* s = PyUnicode_AsUTF8(r);
    if (!s) { PyErr_Clear(); return "(no text)"; }
    return s;
}

// Outcome of a call: a value or an exception
struct Out
{
    P val;
    P exc;      // type
    std::string msg;
    bool is(PyObject* type) const { return exc.o && PyErr_GivenExceptionMatches(exc, type); }
    std::string show() const { return exc.o ? "exception " + text(exc) + " " + msg : text(val); }
};
Out outcome(PyObject* r, const std::string& what)
{
    Out o;
    o.val = P(r);
    if (r && PyErr_Occurred()) { PyErr_Clear(); PBT_FAIL(what << " returned a value with an exception set"); }
    if (!r)
    {
        PBT_CHECK(PyErr_Occurred(), what << " failed without setting an exception");
        PyObject *t, *v, *b;
        PyErr_Fetch(&t, &v, &b);
        o.exc = P(t);
        P vv(v), bb(b);
        if (v) { P s(PyObject_Str(v)); if (s.o) { const char* x = PyUnicode_AsUTF8(s); if (x) o.msg = x; } PyErr_Clear(); }
        PBT_CHECK(!o.is(PyExc_SystemError), what << " raised SystemError: " << o.msg);
    }
    return o;
}
// Interned names, or the interpreter fills its caches with copies of them
PyObject* getattr(PyObject* o, const char* name) { P n(PyUnicode_InternFromString(name)); return PyObject_GetAttr(o, n); }
Out call(PyObject* f, const std::vector<P>& args, const std::string& what, PyObject* kw = nullptr)
{
    P t(PyTuple_New(args.size()));
    for (size_t i = 0; i < args.size(); ++i) { Py_INCREF(args[i].o); PyTuple_SET_ITEM(t.o, i, args[i].o); }
    return outcome(PyObject_Call(f, t, kw), what);
}
Out method(PyObject* o, const char* name, const std::vector<P>& args = {}, PyObject* kw = nullptr)
{
    P m(getattr(o, name));
    PBT_CHECK(m.o, "no method " << name);
    return call(m, args, name, kw);
}
Out attr(PyObject* o, const char* name) { return outcome(getattr(o, name), name); }
P cls(const char* name) { return P(getattr(module, name)); }

PyObject* exc_for(Err e)
{
    switch (e)
    {
        case E_DOMAIN: return PyExc_OverflowError;
        case E_TYPE: return PyExc_TypeError;
        case E_NOTFOUND: return PyExc_KeyError;
        case E_CONSISTENCY: return PyExc_RuntimeError;
        case E_PARSE: return PyExc_ValueError;
        case E_TOOLONG: return PyExc_ValueError;
        case E_UNIMPL: return PyExc_NotImplementedError;
        case E_SYSTEM: return PyExc_OSError;
        case E_ALLOC: return PyExc_MemoryError;
        default: return nullptr;
    }
}
void expect_err(const Out& o, Err e, const std::string& what)
{
    PyObject* t = exc_for(e);
    if (!t) throw Discard(std::string("no rule for ") + errname(e));
    PBT_CHECK(o.is(t), what << " gives " << o.show() << " instead of the exception for " << errname(e));
}

bool is_str(const Out& o, const std::string& s, bool* decodable = nullptr)
{
    P e(PyUnicode_DecodeUTF8(s.data(), s.size(), nullptr));
    if (!e.o) { PyErr_Clear(); return o.is(PyExc_UnicodeDecodeError); }
    return o.val.o && PyUnicode_Check(o.val.o) && PyUnicode_Compare(o.val, e) == 0;
}
bool is_int(const Out& o, long long v) { return o.val.o && PyLong_Check(o.val.o) && PyLong_AsLongLong(o.val) == v; }
bool is_float(const Out& o, double v) { return o.val.o && PyFloat_Check(o.val.o) && (PyFloat_AsDouble(o.val) == v || (v != v && PyFloat_AsDouble(o.val) != PyFloat_AsDouble(o.val))); }

// A variable on both sides
struct Pair
{
    Varinfo info;
    P py;
    std::unique_ptr<Var> var;
};

P pystr(const std::string& s) { P p(PyUnicode_DecodeUTF8(s.data(), s.size(), "replace")); return p; }

std::string type_name(Vartype t)
{
    switch (t)
    {
        case Vartype::Integer: return "integer";
        case Vartype::Decimal: return "decimal";
        case Vartype::String: return "string";
        default: return "binary";
    }
}

bool numeric(Varinfo i) { return i->type == Vartype::Integer || i->type == Vartype::Decimal; }

void check_info(PyObject* o, Varinfo i)
{
    PBT_CHECK(is_str(attr(o, "code"), strf("%c%02u%03u", "BRCD"[F(i->code)], X(i->code), Y(i->code))), "code is " << attr(o, "code").show());
    PBT_CHECK(is_str(attr(o, "type"), type_name(i->type)), "type is " << attr(o, "type").show());
    PBT_CHECK(is_str(attr(o, "unit"), i->unit), "unit is " << attr(o, "unit").show() << " instead of " << i->unit);
    PBT_CHECK(is_str(attr(o, "desc"), i->desc), "desc is " << attr(o, "desc").show() << " instead of " << i->desc);
    PBT_CHECK(is_int(attr(o, "len"), i->len), "len is " << attr(o, "len").show() << " instead of " << i->len);
    PBT_CHECK(is_int(attr(o, "scale"), i->scale), "scale is " << attr(o, "scale").show() << " instead of " << i->scale);
    PBT_CHECK(is_int(attr(o, "bit_ref"), i->bit_ref), "bit_ref is " << attr(o, "bit_ref").show() << " instead of " << i->bit_ref);
    PBT_CHECK(is_int(attr(o, "bit_len"), i->bit_len), "bit_len is " << attr(o, "bit_len").show() << " instead of " << i->bit_len);
    PBT_CHECK(is_str(outcome(PyObject_Str(o), "str"), strf("%c%02u%03u", "BRCD"[F(i->code)], X(i->code), Y(i->code))), "str(varinfo) is wrong");
    PBT_CHECK(is_str(outcome(PyObject_Repr(o), "repr"), strf("Varinfo('%c%02u%03u')", "BRCD"[F(i->code)], X(i->code), Y(i->code))), "repr(varinfo) is wrong");
}

// Value as enq() gives it
void check_value(const Out& o, const Var& v, const char* what)
{
    switch (v.info()->type)
    {
        case Vartype::String: PBT_CHECK(is_str(o, v.enqc()), what << " is " << o.show() << " instead of " << quote(v.enqc())); break;
        case Vartype::Integer: PBT_CHECK(is_int(o, v.enqi()), what << " is " << o.show() << " instead of " << v.enqi()); break;
        case Vartype::Decimal: PBT_CHECK(is_float(o, v.enqd()), what << " is " << o.show() << " instead of " << v.enqd()); break;
        case Vartype::Binary:
        {
            std::string e(v.enqc(), v.info()->len);
            PBT_CHECK(o.val.o && PyBytes_Check(o.val.o) && std::string(PyBytes_AS_STRING(o.val.o), PyBytes_GET_SIZE(o.val.o)) == e, what << " is " << o.show() << " instead of the bytes " << quote(e));
            break;
        }
    }
}

// All that can be read from a variable
void check_read(Gen& g, const Pair& p)
{
    const Var& v = *p.var;
    PyObject* o = p.py;
    PBT_CHECK(PyObject_IsInstance(o, cls("Var")) == 1, "not a Var");
    PBT_CHECK(is_str(attr(o, "code"), strf("%c%02u%03u", "BRCD"[F(v.code())], X(v.code()), Y(v.code()))), "code is " << attr(o, "code").show());
    Out s = attr(o, "isset");
    PBT_CHECK(s.val.o == (v.isset() ? Py_True : Py_False), "isset is " << s.show());
    if (g.chance(1, 4)) check_info(attr(o, "info").val, v.info());
    std::string txt;
    Err e;
    int i = 0;
    e = caught([&] { i = v.enqi(); });
    Out r = method(o, "enqi");
    if (e != E_NONE) expect_err(r, e, "enqi"); else PBT_CHECK(is_int(r, i), "enqi is " << r.show() << " instead of " << i);
    double d = 0;
    e = caught([&] { d = v.enqd(); });
    r = method(o, "enqd");
    if (e != E_NONE) expect_err(r, e, "enqd"); else PBT_CHECK(is_float(r, d), "enqd is " << r.show() << " instead of " << d);
    const char* c = nullptr;
    e = caught([&] { c = v.enqc(); });
    r = method(o, "enqc");
    if (e != E_NONE) expect_err(r, e, "enqc");
    else if (v.info()->type != Vartype::Binary) PBT_CHECK(is_str(r, c), "enqc is " << r.show() << " instead of " << quote(c));
    r = method(o, "enq");
    if (e != E_NONE) expect_err(r, e, "enq"); else check_value(r, v, "enq");
    // With a default
    P def;
    switch (g.draw(8))
    {
        case 0: def = P(PyUnicode_FromString("the default")); break;
        case 1: def = P(PyUnicode_FromString("")); break;
        case 2: def = P(PyBool_FromLong((long)g.draw(2))); break;
        case 3: def = P(PyFloat_FromDouble(0.0)); break;
        case 4: def = P(PyList_New(0)); break;
        case 5: def = P(PyLong_FromLong(0)); break;
        case 6: Py_INCREF(Py_None); def = P(Py_None); break;
        default: def = P(PyLong_FromLong(123456789)); break;
    }
    P kw(PyDict_New());
    PyDict_SetItemString(kw, "default", def);
    r = g.boolean() ? method(o, "get", {def}) : method(o, "get", {}, kw);
    if (!v.isset()) PBT_CHECK(r.val.o == def.o, "get of an unset variable is " << r.show()); else check_value(r, v, "get");
    r = method(o, "get");
    if (!v.isset()) PBT_CHECK(r.val.o == Py_None, "get of an unset variable is " << r.show());
    P sd(PyUnicode_FromString("unset!"));
    r = method(o, "format", {sd});
    PBT_CHECK(is_str(r, v.format("unset!")), "format is " << r.show() << " instead of " << quote(v.format("unset!")));
    r = method(o, "format");
    PBT_CHECK(is_str(r, v.format("")), "format is " << r.show() << " instead of " << quote(v.format("")));
    r = outcome(PyObject_Str(o), "str");
    PBT_CHECK(is_str(r, v.format("None")), "str is " << r.show() << " instead of " << quote(v.format("None")));
    r = outcome(PyObject_Repr(o), "repr");
    std::string f = v.format("None");
    std::string er = strf("Var('%c%02u%03u', ", "BRCD"[F(v.code())], X(v.code()), Y(v.code())) + (v.isset() && !numeric(v.info()) ? "'" + f + "'" : f) + ")";
    PBT_CHECK(is_str(r, er), "repr is " << r.show() << " instead of " << quote(er));
    // Attributes
    r = method(o, "get_attrs");
    PBT_CHECK(r.val.o && PyList_Check(r.val.o), "get_attrs is " << r.show());
    Py_ssize_t n = 0;
    for (const Var* a = v.next_attr(); a; a = a->next_attr(), ++n)
    {
        PBT_CHECK(n < PyList_GET_SIZE(r.val.o), "get_attrs has only " << n << " attributes");
        P ap = borrowed(PyList_GET_ITEM(r.val.o, n));
        PBT_CHECK(is_str(attr(ap, "code"), strf("%c%02u%03u", "BRCD"[F(a->code())], X(a->code()), Y(a->code()))), "attribute " << n << " is " << text(ap));
        Out av = method(ap, "get");
        if (a->isset()) check_value(av, *a, "attribute"); else PBT_CHECK(av.val.o == Py_None, "unset attribute is " << av.show());
        Out aa = method(ap, "get_attrs");
        PBT_CHECK(aa.val.o && PyList_GET_SIZE(aa.val.o) == 0, "an attribute has attributes: " << aa.show());
        // The same with enqa
        Out ea = method(o, "enqa", {attr(ap, "code").val});
        PBT_CHECK(ea.val.o && PyObject_IsInstance(ea.val, cls("Var")) == 1, "enqa gives " << ea.show());
        av = method(ea.val, "get");
        if (a->isset()) check_value(av, *a, "attribute from enqa"); else PBT_CHECK(av.val.o == Py_None, "unset attribute is " << av.show());
        aa = method(ea.val, "get_attrs");
        PBT_CHECK(aa.val.o && PyList_GET_SIZE(aa.val.o) == 0, "the attribute " << text(ea.val) << " given by enqa has attributes of its own: " << aa.show());
    }
    PBT_CHECK(n == PyList_GET_SIZE(r.val.o), "get_attrs has " << PyList_GET_SIZE(r.val.o) << " attributes instead of " << n);
}

struct World
{
    InfoPool pool;
    std::vector<Pair> vars;
    std::string log;
};

Varinfo pick_info(Gen& g, InfoPool& pool) { return g.chance(2, 3) ? pool.shipped(g) : pool.any(g); }
P py_info(Varinfo i) { return P(api->varinfo_create(i)); }

std::string ascii_text(Gen& g, unsigned n)
{
    std::string r;
    for (unsigned i = 0; i < n; ++i) r += (char)g.range(33, 126);
    return r;
}

// A value to give to Python, and what setting it does to a variable
struct Value
{
    P py;
    std::function<void(Var&)> set;
    bool must_fail = false;    // with any exception
    bool any = false;          // outcome not specified, as long as it is well formed
    std::string show;
};
Value gen_value(Gen& g, Varinfo info)
{
    Value r;
    switch (g.draw(8))
    {
        case 0: case 1:
        {
            int64_t lo = std::max<int64_t>(INT32_MIN, (int64_t)info->imin - 3), hi = std::min<int64_t>(INT32_MAX, (int64_t)info->imax + 3);
            int v = !numeric(info) || lo > hi || g.chance(1, 4) ? (int)g.edgy(INT32_MIN, INT32_MAX) : (int)g.edgy(lo, hi);
            r.py = P(PyLong_FromLong(v));
            r.set = [=](Var& x) { x.seti(v); };
            break;
        }
        case 2:
        {
            // Beyond the range of int, including what truncation makes valid
            int64_t base = numeric(info) && info->imin <= info->imax ? g.edgy(info->imin, info->imax) : g.edgy(0, 9);
            static const char* const big[] = {"4294967296", "8589934592", "-4294967296", "18446744073709551616", "9223372036854775808", "-9223372036854775808", "1267650600228229401496703205376", "-1267650600228229401496703205376", "2147483648", "1099511627776"};
            P b(PyLong_FromString(g.pick(big), nullptr, 10)), a(PyLong_FromLongLong(base));
            r.py = P(PyNumber_Add(b, a));
            int over = 0;
            long long ll = PyLong_AsLongLongAndOverflow(r.py, &over);
            if (!over && ll >= INT32_MIN && ll <= INT32_MAX) r.set = [=](Var& x) { x.seti((int)ll); };
            else if (!numeric(info)) r.any = true;
            else r.must_fail = true;
            break;
        }
        case 3: case 4:
        {
            double v = g.chance(1, 4) ? g.any_double() : numeric(info) ? (double)scaled(g.edgy((int64_t)info->imin - 3, std::max(info->imin, info->imax) + 3ll), info->scale) : (double)g.range(-100, 100);
            r.py = P(PyFloat_FromDouble(v));
            r.set = [=](Var& x) { x.setd(v); };
            break;
        }
        case 5: case 6:
        {
            std::string s;
            if (numeric(info) && g.chance(3, 4)) s = std::to_string(g.edgy((int64_t)info->imin - 3, std::max(info->imin, info->imax) + 3ll));
            else s = g.chance(1, 10) ? std::string() : ascii_text(g, 1 + (unsigned)g.draw(info->len ? info->len * 2 : 4));
            if (g.chance(1, 10)) s += "\xc3\xa8";
            bool bytes = g.boolean();
            if (bytes && info->type == Vartype::Binary)
            {
                s = g.bytes(g.chance(2, 3) ? info->len : g.draw(info->len * 2 + 1));
                if (unsigned t = info->bit_len % 8) if (s.size() == info->len) s.back() &= (1 << t) - 1;
            }
            r.py = bytes ? P(PyBytes_FromStringAndSize(s.data(), s.size())) : pystr(s);
            r.set = [=](Var& x) { x.sets(s); };
            break;
        }
        case 7:
            switch (g.draw(8))
            {
                case 0: r.py = borrowed(Py_None); r.any = true; break;
                case 1: r.py = P(PyList_New(0)); r.must_fail = true; break;
                case 2: r.py = P(PyDict_New()); r.must_fail = true; break;
                case 3: r.py = borrowed((PyObject*)&PyLong_Type); r.must_fail = true; break;
                case 4: r.py = P(PyUnicode_DecodeUTF8("\xed\xb2\x80", 3, "surrogatepass")); r.must_fail = true; break;
                case 5: r.py = borrowed(module); r.must_fail = true; break;
                case 6: { bool b = g.boolean(); r.py = borrowed(b ? Py_True : Py_False); r.set = [=](Var& x) { x.seti(b); }; break; }
                case 7: r.py = P(PyComplex_FromDoubles(1, 2)); r.must_fail = true; break;
            }
            break;
    }
    r.show = text(r.py);
    return r;
}

void create(Ctx& c, World& w)
{
    Gen& g = c.g;
    Varinfo info = pick_info(g, w.pool);
    Pair p{info, P(), std::unique_ptr<Var>(new Var(info))};
    P pi = py_info(info);
    P kw(PyDict_New());
    bool use_kw = g.boolean();
    if (g.chance(1, 5))
    {
        Out o = call(cls("Var"), {pi}, "Var(info)");
        PBT_CHECK(o.val.o, "Var(info) gives " << o.show());
        p.py = o.val;
        w.log += " Var(" + codestr(info->code) + ")";
    } else {
        Value v = gen_value(g, info);
        w.log += " Var(" + describe(info) + ", " + v.show + ")";
        Out o;
        if (use_kw)
        {
            PyDict_SetItemString(kw, "varinfo", pi);
            PyDict_SetItemString(kw, "value", v.py);
            o = call(cls("Var"), {}, "Var", kw);
        }
        else o = call(cls("Var"), {pi, v.py}, "Var");
        if (v.any) return;
        if (v.must_fail)
        {
            PBT_CHECK(o.exc.o, "Var(" << describe(info) << ", " << v.show << ") gives " << o.show() << " instead of an exception");
            c.label("refused");
            return;
        }
        Err e = caught([&] { v.set(*p.var); });
        if (e != E_NONE)
        {
            expect_err(o, e, "Var(" + describe(info) + ", " + v.show + ")");
            c.label("refused");
            return;
        }
        PBT_CHECK(o.val.o, "Var(" << describe(info) << ", " << v.show << ") gives " << o.show());
        p.py = o.val;
    }
    check_read(g, p);
    w.vars.push_back(std::move(p));
}

void tables(Ctx& c, World& w)
{
    Gen& g = c.g;
    P vt = cls("Vartable");
    const Vartable* t = nullptr;
    Out o;
    std::string msg;
    Err e;
    P kw(PyDict_New());
    auto arg = [&](const char* name, long v) { P x(PyLong_FromLong(v)); PyDict_SetItemString(kw, name, x); };
    switch (g.draw(6))
    {
        case 0: case 1:
        {
            int centre = (int)(g.boolean() ? 0 : g.draw(256)), sub = (int)(g.boolean() ? 0 : g.draw(256)), ver = (int)g.draw(40), loc = (int)(g.boolean() ? 0 : g.draw(3));
            if (centre || g.boolean()) arg("originating_centre", centre);
            if (sub || g.boolean()) arg("originating_subcentre", sub);
            if (g.boolean()) arg("master_table_number", 0);
            arg("master_table_version_number", ver);
            if (loc || g.boolean()) arg("master_table_version_number_local", loc);
            e = caught([&] { t = Vartable::get_bufr(BufrTableID(centre, sub, 0, ver, loc)); });
            o = method(vt, "get_bufr", {}, kw);
            w.log += strf(" get_bufr(%d %d %d %d)", centre, sub, ver, loc);
            break;
        }
        case 2: case 3:
        {
            int ed = (int)g.range(1, 2), centre = (int)(g.boolean() ? 0 : g.draw(256)), sub = (int)(g.boolean() ? 0 : g.draw(256)), ver = (int)g.draw(8), bver = (int)g.draw(40), loc = (int)(g.boolean() ? 0 : g.draw(3));
            bool uv = g.boolean(), ub = !uv || g.boolean();
            if (ed != 2 || g.boolean()) arg("edition_number", ed);
            if (centre || g.boolean()) arg("originating_centre", centre);
            if (sub || g.boolean()) arg("originating_subcentre", sub);
            if (uv) arg("master_table_version_number", ver);
            if (ub) arg("master_table_version_number_bufr", bver);
            if (loc || g.boolean()) arg("master_table_version_number_local", loc);
            e = caught([&] { t = Vartable::get_crex(CrexTableID(ed, centre, sub, 0, uv ? ver : 0xff, ub ? bver : 0xff, loc)); });
            o = method(vt, "get_crex", {}, kw);
            w.log += strf(" get_crex(%d %d %d %d %d %d)", ed, centre, sub, uv ? ver : -1, ub ? bver : -1, loc);
            break;
        }
        default:
        {
            static std::vector<std::string> names = list_tables('B');
            std::string n = g.chance(1, 6) ? std::string("B0000000000000099000") : g.pick(names);
            size_t sl = n.rfind('/');
            if (sl != std::string::npos) n = n.substr(sl + 1);
            if (n.size() > 4 && n.compare(n.size() - 4, 4, ".txt") == 0) n = n.substr(0, n.size() - 4);
            bool crex = g.boolean(), load = g.boolean();
            std::string path = tables_dir() + "/" + n + ".txt";
            e = caught([&] { t = load ? (crex ? Vartable::load_crex(path.c_str()) : Vartable::load_bufr(path.c_str())) : (crex ? Vartable::get_crex(n) : Vartable::get_bufr(n)); });
            P s(PyUnicode_FromString(load ? path.c_str() : n.c_str()));
            const char* m = load ? (crex ? "load_crex" : "load_bufr") : (crex ? "get_crex" : "get_bufr");
            if (!load && g.boolean()) { PyDict_SetItemString(kw, "basename", s); o = method(vt, m, {}, kw); }
            else o = method(vt, m, {s});
            w.log += strf(" %s(%s)", m, n.c_str());
            break;
        }
    }
    if (e != E_NONE) { expect_err(o, e, "table lookup"); c.label("table not found"); return; }
    PBT_CHECK(o.val.o, "table lookup gives " << o.show());
    P pt = o.val;
    std::string path = t->path();
    Out pn = attr(pt, "pathname");
    P ps(PyObject_Str(pn.val));
    PBT_CHECK(std::string(PyUnicode_AsUTF8(ps)) == path, "pathname is " << pn.show() << " instead of " << path);
    PBT_CHECK(is_str(outcome(PyObject_Str(pt), "str"), path), "str(table) is wrong");
    PBT_CHECK(is_str(outcome(PyObject_Repr(pt), "repr"), "Vartable('" + path + "')"), "repr(table) is wrong");
    for (unsigned i = 0; i < 4; ++i)
    {
        code_t code = g.boolean() ? main_btable() ? pick_info(g, w.pool)->code : 0 : fxy(0, (unsigned)g.draw(64), (unsigned)g.draw(256));
        std::string name = strf("%c%02u%03u", "BRCD"[F(code)], X(code), Y(code));
        P key(PyUnicode_FromString(name.c_str()));
        Varinfo vi = nullptr;
        Err e = caught([&] { vi = t->query(code); });
        Out o = outcome(PyObject_GetItem(pt, key), "table[code]");
        int in = PySequence_Contains(pt, key);
        PBT_CHECK(in == (e == E_NONE ? 1 : 0), name << " in table is " << in << " but looking it up gives " << errname(e));
        if (e != E_NONE) expect_err(o, e, "table[" + name + "]");
        else { PBT_CHECK(o.val.o, "table[" << name << "] gives " << o.show()); check_info(o.val, vi); }
    }
    static const char* const bad[] = {"", "B", "X12101", "B1210", "12101", "B1210a", "b12101", "\xc3\xa8", "B 2101"};
    P key(PyUnicode_FromString(g.pick(bad)));
    Out b = outcome(PyObject_GetItem(pt, key), "table[invalid]");
    PBT_CHECK(b.exc.o, "table[" << text(key) << "] gives " << b.show());
    int in = PySequence_Contains(pt, key);
    if (in == -1) { PBT_CHECK(PyErr_Occurred(), "failure without exception"); PyErr_Clear(); }
    PBT_CHECK(in != 1, text(key) << " is in the table");
    P nokey(PyLong_FromLong((long)g.draw(3)));
    b = outcome(PyObject_GetItem(pt, nokey), "table[int]");
    PBT_CHECK(b.exc.o, "table[" << text(nokey) << "] gives " << b.show());
    // It has no elements to iterate: that must end
    P it(PyObject_GetIter(pt));
    if (!it.o) PyErr_Clear();
    else
    {
        unsigned n = 0;
        while (P x = P(PyIter_Next(it))) PBT_CHECK(++n < 100000, "iterating on a table does not end");
        PyErr_Clear();
    }
    c.label("tables");
}

void wrong(Ctx& c, World& w)
{
    Gen& g = c.g;
    P one(PyLong_FromLong(1)), str(PyUnicode_FromString("foo")), none = borrowed(Py_None);
    P var = cls("Var"), vt = cls("Vartable"), vi = cls("Varinfo");
    auto bad = [&](const Out& o, const char* what, PyObject* type = nullptr) {
        PBT_CHECK(o.exc.o, what << " gives " << o.show() << " instead of an exception");
        if (type) PBT_CHECK(o.is(type), what << " raises " << o.show());
        w.log += std::string(" ") + what;
    };
    unsigned k = (unsigned)g.draw(20);
    PyObject* v = w.vars.empty() ? nullptr : g.pick(w.vars).py.o;
    if (!v && k >= 10) k -= 10;
    switch (k)
    {
        case 0: bad(call(var, {}, "Var()"), "Var()", PyExc_TypeError); break;
        case 1: bad(call(var, {one}, "Var(1)"), "Var(1)"); break;
        case 2: bad(call(var, {none, none}, "Var(None, None)"), "Var(None, None)"); break;
        case 3: bad(call(var, {one, str, str}, "Var(1, 2, 3)"), "Var(1, 2, 3)", PyExc_TypeError); break;
        case 4: bad(call(vi, {}, "Varinfo()"), "Varinfo()"); break;
        case 5: bad(call(vt, {}, "Vartable()"), "Vartable()"); break;
        case 6: bad(method(vt, "get_bufr"), "get_bufr()"); break;
        case 7: bad(method(vt, "get_crex"), "get_crex()"); break;
        case 8: bad(method(vt, g.boolean() ? "load_bufr" : "get_crex", {one}), "load of 1", PyExc_TypeError); break;
        case 9: bad(method(vt, g.boolean() ? "load_bufr" : "load_crex", {P(PyUnicode_FromString("/nonexistent/table.txt"))}), "load of a missing file"); break;
        case 10: bad(method(v, "enqa", {one}), "enqa(1)", PyExc_TypeError); break;
        case 11: bad(method(v, "enqa", {str}), "enqa(invalid)"); break;
        case 12: bad(method(v, "unseta", {none}), "unseta(None)", PyExc_TypeError); break;
        case 13: bad(method(v, "seta", {one}), "seta(1)", PyExc_TypeError); break;
        case 14: bad(method(v, "seta"), "seta()", PyExc_TypeError); break;
        case 15: bad(method(v, "format", {one}), "format(1)", PyExc_TypeError); break;
        case 16: bad(outcome(PyObject_RichCompare(v, v, Py_LT), "<"), "<", PyExc_TypeError); break;
        case 17: { Out o = outcome(PyObject_RichCompare(v, one, Py_EQ), "=="); PBT_CHECK(o.val.o == Py_False, "var == 1 is " << o.show()); break; }
        case 18: { bool ok = PyObject_SetAttr(v, P(PyUnicode_InternFromString("code")), one) == -1; PyErr_Clear(); PBT_CHECK(ok, "code can be set"); break; }
        case 19: bad(method(v, "enqi", {one}), "enqi(1)", PyExc_TypeError); break;
    }
    c.label("wrong arguments");
}

void c_api(Ctx& c, World& w)
{
    Gen& g = c.g;
    Varinfo info = pick_info(g, w.pool);
    Pair p{info, P(), nullptr};
    Err e = E_NONE, x = E_NONE;
    switch (g.draw(8))
    {
        case 0: p.py = P((PyObject*)api->var_create(info)); p.var.reset(new Var(info)); break;
        case 1:
        {
            int v = numeric(info) && info->imin <= info->imax ? (int)g.edgy(info->imin, info->imax) : (int)g.draw(10);
            e = caught([&] { p.var.reset(new Var(info, v)); });
            if (e == E_NONE) p.py = P(api->var_create_i(info, v));
            break;
        }
        case 2:
        {
            double v = numeric(info) && info->imin <= info->imax ? (double)scaled(g.edgy(info->imin, info->imax), info->scale) : (double)g.draw(10);
            e = caught([&] { p.var.reset(new Var(info, v)); });
            if (e == E_NONE) p.py = P(api->var_create_d(info, v));
            break;
        }
        case 3: case 4:
        {
            std::string s = numeric(info) ? std::to_string(g.edgy(info->imin, std::max(info->imin, info->imax))) : ascii_text(g, info->len);
            if (info->type == Vartype::Binary) return;
            e = caught([&] { p.var.reset(new Var(info, s)); });
            if (e == E_NONE) p.py = P(g.boolean() ? api->var_create_s(info, s) : api->var_create_c(info, s.c_str()));
            break;
        }
        case 5:
            if (w.vars.empty()) return;
            { const Pair& o = g.pick(w.vars); p.info = o.info; p.py = P(api->var_create_copy(*o.var)); p.var.reset(new Var(*o.var)); }
            break;
        case 6:
            if (w.vars.empty()) return;
            { const Pair& o = g.pick(w.vars); p.info = o.info; Var m(*o.var); p.py = P(api->var_create_move(std::move(m))); p.var.reset(new Var(*o.var)); }
            break;
        case 7:
            if (w.vars.empty()) return;
            {
                // Value of another variable
                const Pair& o = g.pick(w.vars);
                p.var.reset(new Var(o.info));
                p.info = o.info;
                p.var->setval(*o.var);
                p.py = P(api->var_create_v(o.info, *o.var));
            }
            break;
    }
    (void)x;
    if (e != E_NONE) return;
    PBT_CHECK(p.py.o, "the C API did not create a variable");
    PBT_CHECK(api->var(p.py) == &((wrpy_Var*)p.py.o)->var, "the C API does not give the variable of an object");
    check_read(g, p);
    // Value to Python and back
    if (p.var->isset())
    {
        P val(api->var_value_to_python(*p.var));
        if (!val.o) PyErr_Clear();
        else
        {
            Var back(p.info);
            int rc = api->var_value_from_python(val, back);
            PBT_CHECK(rc == 0 && !PyErr_Occurred(), "a value read cannot be set: " << text(val));
            PBT_CHECK(back.value_equals(*p.var), "value " << p.var->format() << " becomes " << back.format() << " through Python " << text(val));
        }
    }
    w.vars.push_back(std::move(p));
    c.label("C API");
}

void step(Ctx& c, World& w)
{
    Gen& g = c.g;
    if (w.vars.empty()) { create(c, w); return; }
    size_t ix = g.draw(w.vars.size());
    Pair& p = w.vars[ix];
    switch (g.draw(12))
    {
        case 0: case 1: case 2: create(c, w); break;
        case 3:
        {
            // Copy
            Out o = call(cls("Var"), {p.py}, "Var(var)");
            PBT_CHECK(o.val.o && o.val.o != p.py.o, "Var(var) gives " << o.show());
            w.vars.push_back({p.info, o.val, std::unique_ptr<Var>(new Var(*p.var))});
            check_read(g, w.vars.back());
            w.log += " copy";
            break;
        }
        case 4: case 5:
        {
            Pair& a = w.vars[g.draw(w.vars.size())];
            if (&a == &p) break;
            P kw(PyDict_New());
            PyDict_SetItemString(kw, "var", a.py);
            Err e = caught([&] { p.var->seta(*a.var); });
            Out o = g.boolean() ? method(p.py, "seta", {a.py}) : method(p.py, "seta", {}, kw);
            if (e != E_NONE) expect_err(o, e, "seta"); else PBT_CHECK(o.val.o == Py_None, "seta gives " << o.show());
            // An attribute that came with attributes is not specified
            if (a.var->next_attr()) { w.vars.erase(w.vars.begin() + ix); break; }
            check_read(g, p);
            check_read(g, a);
            w.log += " seta";
            c.label("attributes");
            break;
        }
        case 6:
        {
            code_t code = g.boolean() && p.var->next_attr() ? p.var->next_attr()->code() : g.pick(w.vars).info->code;
            P s(PyUnicode_FromString(strf("%c%02u%03u", "BRCD"[F(code)], X(code), Y(code)).c_str()));
            p.var->unseta(code);
            Out o = method(p.py, "unseta", {s});
            PBT_CHECK(o.val.o == Py_None, "unseta gives " << o.show());
            check_read(g, p);
            Out q = method(p.py, "enqa", {s});
            PBT_CHECK(q.val.o == Py_None, "after unseta enqa gives " << q.show());
            w.log += " unseta";
            break;
        }
        case 7:
        {
            Pair& a = w.vars[g.draw(w.vars.size())];
            bool eq = *p.var == *a.var;
            Out o = outcome(PyObject_RichCompare(p.py, a.py, Py_EQ), "==");
            PBT_CHECK(o.val.o == (eq ? Py_True : Py_False), text(p.py) << " == " << text(a.py) << " is " << o.show());
            o = outcome(PyObject_RichCompare(p.py, a.py, Py_NE), "!=");
            PBT_CHECK(o.val.o == (eq ? Py_False : Py_True), text(p.py) << " != " << text(a.py) << " is " << o.show());
            break;
        }
        case 8: wrong(c, w); break;
        case 9: if (g.chance(1, 4)) tables(c, w); break;
        case 10:
        {
            static const char* const units[] = {"K", "C", "C/10", "PA", "HPA", "KNOT", "M/S", "M", "FT", "MM", "KM", "%", "KG/M**2", "DEGREE TRUE", "NUMERIC", "RAD/M", "CAL/S", "foo", ""};
            const char* a = g.pick(units), *b = g.pick(units);
            double d = g.boolean() ? (double)g.range(-1000, 1000) : g.any_double(), r = 0;
            P pa(PyUnicode_FromString(a)), pb(PyUnicode_FromString(b)), pd(PyFloat_FromDouble(d));
            Err e = caught([&] { r = convert_units(a, b, d); });
            Out o = call(cls("convert_units"), {pa, pb, pd}, "convert_units");
            if (e != E_NONE) expect_err(o, e, "convert_units"); else PBT_CHECK(is_float(o, r), "convert_units gives " << o.show() << " instead of " << r);
            w.log += strf(" convert(%s,%s)", a, b);
            break;
        }
        case 11: c_api(c, w); break;
    }
}

void one(Ctx& c, uint64_t& h, unsigned& n)
{
    World w;
    n = 1 + c.g.size(20);
    for (unsigned i = 0; i < n; ++i) step(c, w);
    for (auto& p: w.vars) check_read(c.g, p);
    c.set_sample(w.log);
    h = hash_str(w.log);
}

void run(Ctx& c)
{
    c.evaluations = 1;
    uint64_t h;
    unsigned n;
    if (c.g.chance(1, 40))
    {
        // The same history over and over does not take more and more memory
        const unsigned warm = 3, reps = 12;
        // Record the choices of one history
        std::vector<uint64_t> tape(4096);
        for (auto& t: tape) t = 0;
        uint64_t seed = c.g.draw(0);
        size_t before = 0;
        for (unsigned i = 0; i < warm + reps; ++i)
        {
            // The interpreter keeps names in its caches
            if (i == warm) PyType_ClearCache(), before = __sanitizer_get_current_allocated_bytes();
            Gen g2;
            g2.seed(seed);
            g2.random_mode = true;
            Ctx c2(g2);
            try { one(c2, h, n); } catch (Discard&) { }
        }
        PyType_ClearCache();
        size_t after = __sanitizer_get_current_allocated_bytes();
        // One leaked object for each repetition is more than this
        PBT_CHECK(after < before + reps * 24, "repeating the same calls " << reps << " times takes " << after - before << " more bytes");
        c.label("memory");
    }
    one(c, h, n);
    if (n > 2) c.nontrivial(h);
}

void init()
{
    init_tables();
    PyImport_AppendInittab("_wreport", PyInit__wreport);
    PyPreConfig pre;
    PyPreConfig_InitIsolatedConfig(&pre);
    pre.allocator = PYMEM_ALLOCATOR_MALLOC;
    pre.utf8_mode = 1;
    Py_PreInitialize(&pre);
    PyConfig cfg;
    PyConfig_InitIsolatedConfig(&cfg);
    cfg.write_bytecode = 0;
    cfg.site_import = 0;
    PyStatus st = Py_InitializeFromConfig(&cfg);
    if (PyStatus_Exception(st)) { fprintf(stderr, "Python does not start\n"); exit(3); }
    PyConfig_Clear(&cfg);
    module = PyImport_ImportModule("_wreport");
    if (!module) { PyErr_Print(); exit(3); }
    api = (wrpy_c_api*)PyCapsule_Import("_wreport._C_API", 0);
    if (!api) { PyErr_Print(); exit(3); }
    Py_XDECREF(PyImport_ImportModule("pathlib"));
}

Register r({"C22", "histories of calls of the Python API (and of its C API) on an embedded interpreter: variables of any definition created from Python values of every kind, read, copied, compared, given attributes; table lookups, unit conversions and wrong arguments; each result compared with the one of the C++ API; non trivial: more than two calls; distinct: calls",
        run, init, 150000, 4000000, true});
}
