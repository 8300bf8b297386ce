#include "refbufr.h"
#include <wreport/tables.h>
#include <wreport/dtable.h>
#include <wreport/subset.h>
#include <algorithm>
#include <climits>
#include <set>

using namespace wreport;
using namespace pbt;
using model::BEntry;
using model::fxy;
using model::codestr;

namespace ref {

static const unsigned MAX_FIELDS = 1500;

struct Unsupported { std::string why; };

// ---------------------------------------------------------------- tables

static bool usable(const BEntry& e)
{
    if (e.is_string()) return e.bits >= 8 && e.bits % 8 == 0;
    return e.bits >= 1 && e.bits <= 32 && abs(e.scale) <= 10;
}

static bool coded(const BEntry& e) { return e.unit.compare(0, 10, "CODE TABLE") == 0 || e.unit.compare(0, 10, "FLAG TABLE") == 0; }

// Structure of a list of descriptors: size in variables with one repetition, or
// throws Unsupported
static unsigned check_list(const Tab& t, const std::vector<code_t>& l, bool& plain, unsigned depth)
{
    if (depth > 20) throw Unsupported{"depth"};
    unsigned size = 0;
    for (size_t i = 0; i < l.size(); ++i)
    {
        code_t c = l[i];
        switch (model::F(c))
        {
            case 0: {
                const BEntry* e = t.find(c);
                if (!e || !usable(*e)) throw Unsupported{"element"};
                if (model::X(c) == 31) plain = false;
                ++size;
                break;
            }
            case 1: {
                size_t n = model::X(c), count = model::Y(c);
                if (n == 0) throw Unsupported{"empty replication"};
                if (count == 0)
                {
                    ++i; ++size; count = 1;
                    if (i >= l.size()) throw Unsupported{"no factor"};
                    if (l[i] != fxy(0, 31, 0) && l[i] != fxy(0, 31, 1) && l[i] != fxy(0, 31, 2)) throw Unsupported{"factor"};
                    if (!t.find(l[i])) throw Unsupported{"factor"};
                }
                if (i + n >= l.size()) throw Unsupported{"replication beyond end"};
                std::vector<code_t> body(l.begin() + i + 1, l.begin() + i + 1 + n);
                size += (unsigned)(count * check_list(t, body, plain, depth + 1));
                i += n;
                break;
            }
            case 2:
                plain = false;
                switch (model::X(c))
                {
                    case 1: case 2: case 7: case 8: break;
                    default: throw Unsupported{"operator"};
                }
                break;
            case 3: {
                auto d = t.d.find(c);
                if (d == t.d.end()) throw Unsupported{"sequence"};
                size += check_list(t, d->second, plain, depth + 1);
                break;
            }
        }
        if (size > 100000) throw Unsupported{"size"};
    }
    return size;
}

const Tab* get_tab(const std::string& bpath, const std::string& dpath)
{
    static std::map<std::string, std::unique_ptr<Tab>> cache;
    auto& p = cache[bpath + "\n" + dpath];
    if (p) return p.get();
    p.reset(new Tab);
    p->bpath = bpath;
    p->dpath = dpath;
    p->b = model::load_b(bpath);
    p->d = model::load_d(dpath);
    for (const auto& i: p->b)
    {
        if (!usable(i.second) || model::X(i.first) == 31) continue;
        if (i.second.is_string()) p->strs.push_back(&i.second);
        else if (coded(i.second)) p->codes.push_back(&i.second);
        else p->nums.push_back(&i.second);
    }
    for (const auto& i: p->d)
    {
        try {
            bool plain = true;
            unsigned n = check_list(*p, i.second, plain, 0);
            if (n > 150) continue;
            p->seqs.push_back(i.first);
            p->seq_size[i.first] = n;
            p->seq_plain[i.first] = plain;
        } catch (Unsupported&) {
        }
    }
    return p.get();
}

// ---------------------------------------------------------------- interpreter

static uint64_t ones64(unsigned n) { return n >= 64 ? ~(uint64_t)0 : ((uint64_t)1 << n) - 1; }

// Values a field can carry, as value * 10^scale
static bool limits(unsigned x, const RVar& v, int64_t& lo, int64_t& hi)
{
    model::range(x, model::digits(v.bits), v.refv, v.bits, lo, hi);
    lo = std::max<int64_t>(lo, v.refv);
    hi = std::min<int64_t>(hi, (int64_t)v.refv + (int64_t)ones64(v.bits) - 1);
    return lo <= hi;
}

struct Ops
{
    int width = 0, scale = 0;
    unsigned incr = 0, strlen = 0;
    std::map<code_t, int> refs;
};

// Definition of an element after the operators in force
static RVar define(const Tab& t, const Ops& o, code_t code)
{
    const BEntry* e = t.find(code);
    if (!e) throw Unsupported{"element not in table"};
    RVar v;
    v.code = code;
    v.kind = e->is_string() ? STR : NUM;
    int64_t scale = e->scale, refv = e->ref, bits = e->bits;
    if (e->is_string())
    {
        if (o.strlen) bits = o.strlen * 8;
    } else if (!coded(*e)) {
        bits += o.width;
        scale += o.scale;
        if (o.refs.count(code)) refv = o.refs.at(code);
        if (o.incr)
        {
            if (o.refs.count(code)) throw Unsupported{"C07 together with C03"};
            scale += o.incr;
            bits += (10 * o.incr + 2) / 3;
            for (unsigned i = 0; i < o.incr; ++i) refv *= 10;
        }
        if (bits < 1 || bits > 32 || scale < -16 || scale > 16 || refv < -1000000000 || refv > 1000000000)
            throw Unsupported{"alteration out of reach"};
    }
    v.scale = (int)scale; v.refv = (int)refv; v.bits = (unsigned)bits;
    v.altered = v.scale != e->scale || v.refv != e->ref || v.bits != e->bits;
    if (!e->is_string() && model::X(code) != 31)
    {
        int64_t lo, hi;
        if (!limits(model::X(code), v, lo, hi)) throw Unsupported{"no valid values"};
    }
    return v;
}

// What has to be the same in all the subsets of a compressed message
struct Shape
{
    std::vector<unsigned> factors, sigs;
    std::vector<std::string> bitmaps;
    std::vector<int> refvals;
};

static const struct { unsigned sig; unsigned y; } af_codes[] = { {1, 2}, {2, 3}, {6, 50}, {7, 40}, {8, 2}, {21, 41} };

struct Interp
{
    Gen& g;
    const Tab& t;
    Message& m;
    RSubset& out;
    const Shape* replay;      // structure to follow
    Shape shape;              // structure followed
    const RSubset* peer;      // values to stay close to
    const GenOpts& opts;
    Ops ops;
    unsigned af_bits = 0, af_sig = 63;
    unsigned c03_bits = 0;
    unsigned depth = 0;
    std::vector<unsigned> forced;   // next replication factors
    size_t forced_pos = 0;
    // Bitmap
    std::vector<size_t> refs;
    size_t refs_pos = 0;
    bool bitmap_active = false;
    bool substituting = false;

    Interp(Gen& g, Message& m, RSubset& out, const Shape* replay, const RSubset* peer, const GenOpts& opts)
        : g(g), t(*m.tab), m(m), out(out), replay(replay), peer(peer), opts(opts) {}

    void add(const Field& f)
    {
        out.fields.push_back(f);
        if (out.fields.size() > MAX_FIELDS) throw Discard("too many fields");
    }

    const Field* peer_field() const
    {
        return peer && out.fields.size() < peer->fields.size() ? &peer->fields[out.fields.size()] : nullptr;
    }

    std::string draw_text(unsigned len)
    {
        std::string s;
        if (g.chance(1, 25)) return s;
        unsigned n = g.chance(1, 3) ? len : 1 + (unsigned)g.draw(len);
        for (unsigned i = 0; i < n; ++i)
        {
            bool last = i == n - 1;
            switch (g.draw(12))
            {
                case 0: s += last ? 'x' : ' '; break;
                case 1: s += (char)(last ? 'y' : g.range(33, 126)); break;
                case 2: s += (char)g.range(0xa1, 0xfe); break;
                default: s += (char)g.range('A', 'Z'); break;
            }
        }
        return s;
    }

    // Draw the value of v and return its field
    Field draw_value(RVar& v, bool may_miss = true)
    {
        const Field* p = peer_field();
        Field f;
        f.bits = v.bits;
        if (may_miss && g.chance(1, 6)) f.missing = true;
        if (p && p->type == Field::INT && p->missing && g.chance(1, 2)) f.missing = may_miss;
        if (v.kind == NUM)
        {
            int64_t lo, hi;
            if (!limits(model::X(v.code), v, lo, hi)) f.missing = true;
            if (!f.missing)
            {
                if (p && p->type == Field::INT && p->bits == v.bits && !p->missing && g.chance(2, 3))
                {
                    int64_t base = (int64_t)p->v + v.refv;
                    if (g.chance(1, 2)) base += g.range(-8, 8);
                    v.val = std::min(std::max(base, lo), hi);
                } else
                    v.val = g.edgy(lo, hi);
                f.v = (uint64_t)(v.val - v.refv);
                v.set = true;
            }
        } else if (v.kind == STR) {
            f.type = Field::TEXT;
            if (!f.missing)
            {
                if (p && p->type == Field::TEXT && p->bits == v.bits && !p->missing && g.chance(1, 2))
                    v.str = p->s;
                else
                    v.str = draw_text(v.bits / 8);
                f.s = v.str;
                v.set = true;
            }
            ++m.n_strings;
        } else if (v.kind == BIN) {
            f.type = Field::RAW;
            if (!f.missing)
            {
                bool some_zero = false;
                for (unsigned left = v.bits; left; )
                {
                    unsigned n = std::min(8u, left);
                    uint8_t b = (uint8_t)(g.byte() & ones64(n));
                    if (b != ones64(n)) some_zero = true;
                    v.str += (char)b;
                    left -= n;
                }
                // All ones is missing
                if (!some_zero) v.str[0] = 0;
                v.set = true;
                f.s = v.str;
            }
        } else
            throw std::logic_error("value of unknown kind");
        if (f.missing) { ++m.n_missing; }
        if (v.altered) ++m.n_altered;
        return f;
    }

    // Replication factors have no missing value
    static bool has_missing(code_t c)
    {
        unsigned y = model::Y(c);
        return model::F(c) != 0 || model::X(c) != 31 || !(y <= 2 || y == 11 || y == 12);
    }

    void element(code_t c)
    {
        if (c03_bits)
        {
            // New reference value
            int64_t max = std::min<int64_t>((int64_t)ones64(c03_bits - 1), 1000000000);
            const BEntry* e = t.find(c);
            int val;
            if (replay && shape.refvals.size() < replay->refvals.size()) val = replay->refvals[shape.refvals.size()];
            else
            {
                int64_t lo = -max, hi = max;
                // Leave room to the values
                if (e->bits >= 30) { lo = std::max<int64_t>(lo, -1000); hi = std::min<int64_t>(hi, 1000); }
                val = (int)g.edgy(lo, hi);
                RVar probe;
                probe.code = c; probe.bits = e->bits; probe.refv = val;
                int64_t a, b;
                if (!limits(model::X(c), probe, a, b) || !limits(model::X(c), (probe.bits += (unsigned)std::max(0, ops.width), probe), a, b)) val = 0;
            }
            shape.refvals.push_back(val);
            ops.refs[c] = val;
            Field f;
            f.bits = c03_bits;
            f.uniform = true;
            f.v = val < 0 ? (((uint64_t)1 << (c03_bits - 1)) | (uint64_t)-(int64_t)val) : (uint64_t)val;
            add(f);
            m.compressible = false;
            return;
        }
        RVar v = define(t, ops, c);
        if (model::X(c) == 33 && bitmap_active)
        {
            attribute(v);
            return;
        }
        if (af_bits) associated(v);
        Field f = draw_value(v, has_missing(c));
        add(f);
        out.vars.push_back(v);
    }

    void associated(RVar& v)
    {
        Field f;
        f.bits = af_bits;
        const BEntry* e = nullptr;
        for (const auto& a: af_codes) if (a.sig == af_sig) e = t.find(fxy(0, 33, a.y));
        if (e)
        {
            RVar attr = define(t, Ops(), e->code);
            int64_t lo, hi;
            limits(33, attr, lo, hi);
            lo = std::max<int64_t>(lo, 0);
            // all ones is missing
            hi = std::min<int64_t>(hi, (int64_t)ones64(af_bits) - 1);
            if (lo > hi || g.chance(1, 4)) { f.missing = true; v.undef.push_back(e->code); }
            else
            {
                attr.val = g.edgy(lo, hi);
                attr.set = true;
                f.v = (uint64_t)attr.val;
                v.attrs.push_back(attr);
            }
            ++m.n_af;
        } else {
            // Meaning reserved or missing: the field is skipped
            if (opts.for_encode) f.missing = true;
            else f.v = g.draw(ones64(af_bits) + 1);
            if (f.v == ones64(af_bits)) f.missing = true;
        }
        add(f);
    }

    void attribute(RVar& v)
    {
        Field f = draw_value(v, has_missing(v.code));
        add(f);
        if (v.set) { out.vars[refs[refs_pos]].attrs.push_back(v); ++m.n_attrs; }
        if (++refs_pos == refs.size()) bitmap_active = false;
    }

    unsigned factor(code_t c, unsigned max)
    {
        unsigned n;
        if (forced_pos < forced.size()) n = forced[forced_pos++];
        else if (replay && shape.factors.size() < replay->factors.size()) n = replay->factors[shape.factors.size()];
        else n = max > 5 ? max : (unsigned)g.draw(max + 1);
        RVar v = define(t, Ops(), c);
        if (n > ones64(v.bits)) n = (unsigned)ones64(v.bits);
        shape.factors.push_back(n);
        v.set = true;
        v.val = n;
        Field f;
        f.bits = v.bits;
        f.v = n;
        f.uniform = true;
        add(f);
        out.vars.push_back(v);
        ++m.n_delayed;
        return n;
    }

    void run(const std::vector<code_t>& l)
    {
        if (++depth > 40) throw Discard("depth");
        for (size_t i = 0; i < l.size(); ++i)
        {
            code_t c = l[i];
            switch (model::F(c))
            {
                case 0: element(c); break;
                case 1: {
                    size_t n = model::X(c);
                    unsigned count = model::Y(c);
                    if (!count)
                    {
                        code_t fc = l.at(++i);
                        unsigned max = depth > 2 ? 2 : 4;
                        if (n <= 2 && depth == 1 && g.chance(1, 40))
                        {
                            static const unsigned big[] = { 254, 255, 256, 300, 100, 127 };
                            max = g.pick(big);
                        }
                        count = factor(fc, max);
                    }
                    std::vector<code_t> body(l.begin() + i + 1, l.begin() + i + 1 + n);
                    if (body.size() != n) throw std::logic_error("bad template");
                    for (unsigned k = 0; k < count; ++k) run(body);
                    i += n;
                    break;
                }
                case 2: {
                    unsigned y = model::Y(c);
                    switch (model::X(c))
                    {
                        case 1: ops.width = y ? (int)y - 128 : 0; break;
                        case 2: ops.scale = y ? (int)y - 128 : 0; break;
                        case 3:
                            if (y == 0) { ops.refs.clear(); c03_bits = 0; }
                            else c03_bits = y == 255 ? 0 : y;
                            m.features.insert("C03");
                            break;
                        case 4:
                            if (y) significance();
                            af_bits = y;
                            if (y) ++i;
                            m.features.insert("C04");
                            break;
                        case 5: chars(c); m.features.insert("C05"); break;
                        case 6: local(y, l.at(++i)); m.features.insert("C06"); break;
                        case 7: ops.incr = y; break;
                        case 8: ops.strlen = y; break;
                        case 23:
                            if (y == 255)
                            {
                                // A value with the definition of the variable it replaces
                                RVar v = out.vars[refs[refs_pos]];
                                v.attrs.clear();
                                v.set = false; v.str.clear(); v.val = 0;
                                attribute(v);
                            }
                            break;
                        case 22: case 36: case 37: break;
                        default: throw std::logic_error("operator not handled");
                    }
                    break;
                }
                case 3: run(t.d.at(c)); break;
            }
        }
        --depth;
    }

    void significance()
    {
        RVar v = define(t, Ops(), fxy(0, 31, 21));
        unsigned s;
        if (replay && shape.sigs.size() < replay->sigs.size()) s = replay->sigs[shape.sigs.size()];
        else if (g.chance(1, 8)) s = (unsigned)g.range(1, 63);
        else if (g.chance(1, 10)) s = 63;
        else s = g.pick(af_codes).sig;
        // The attribute has to be in the table
        for (const auto& a: af_codes) if (a.sig == s && !t.find(fxy(0, 33, a.y))) s = 63;
        shape.sigs.push_back(s);
        af_sig = s;
        Field f;
        f.bits = v.bits;
        f.v = s;
        f.uniform = true;
        if (s == 63)
        {
            f.missing = true;
            // The library takes 63 as missing
        } else {
            v.set = true;
            v.val = s;
        }
        add(f);
        out.vars.push_back(v);
    }

    void chars(code_t c)
    {
        RVar v;
        v.code = c;
        v.kind = CHARS;
        v.bits = model::Y(c) * 8;
        v.set = true;
        v.str = draw_text(model::Y(c));
        while (v.str.size() < model::Y(c)) v.str += 'Z';
        Field f;
        f.type = Field::TEXT;
        f.bits = v.bits;
        f.s = v.str;
        add(f);
        out.vars.push_back(v);
        m.compressible = false;
    }

    void local(unsigned bits, code_t c)
    {
        const BEntry* e = t.find(c);
        if (e)
        {
            RVar v = define(t, ops, c);
            if (v.bits == bits)
            {
                Field f = draw_value(v);
                add(f);
                out.vars.push_back(v);
                return;
            }
        }
        RVar v;
        v.code = c;
        v.kind = BIN;
        v.bits = bits;
        Field f = draw_value(v);
        add(f);
        out.vars.push_back(v);
        m.compressible = false;
    }

    // Bits of a bitmap of size n
    std::string draw_bitmap(unsigned n)
    {
        if (replay && shape.bitmaps.size() < replay->bitmaps.size())
        {
            std::string b = replay->bitmaps[shape.bitmaps.size()];
            return b;
        }
        std::string b;
        unsigned mode = (unsigned)g.draw(4);
        for (unsigned i = 0; i < n; ++i)
            switch (mode)
            {
                case 0: case 1: b += g.boolean() ? '+' : '-'; break;
                case 2: b += '+'; break;
                case 3: b += g.chance(1, 8) ? '+' : '-'; break;
            }
        return b;
    }

    // Define a bitmap that refers to the last bits.size() elements
    bool set_bitmap(const std::string& bits)
    {
        std::vector<size_t> pos;
        for (size_t i = out.vars.size(); i-- > 0 && pos.size() < bits.size(); )
            if (model::F(out.vars[i].code) == 0) pos.insert(pos.begin(), i);
        if (pos.size() < bits.size()) return false;
        refs.clear();
        for (size_t i = 0; i < bits.size(); ++i)
            if (bits[i] == '+') refs.push_back(pos[i]);
        start_bitmap();
        return true;
    }

    void start_bitmap()
    {
        refs_pos = 0;
        bitmap_active = !refs.empty();
    }

    unsigned elements() const
    {
        unsigned n = 0;
        for (const auto& v: out.vars) if (model::F(v.code) == 0) ++n;
        return n;
    }
};

// ---------------------------------------------------------------- generator

struct TemplateGen
{
    Gen& g;
    const Tab& t;
    const GenOpts& o;
    Ops ops;
    bool af = false;
    int budget;

    TemplateGen(Gen& g, const Tab& t, const GenOpts& o, int budget) : g(g), t(t), o(o), budget(budget) {}

    bool can(code_t c)
    {
        try { define(t, ops, c); return true; } catch (Unsupported&) { return false; }
    }

    bool can_list(const std::vector<code_t>& l, Ops& s, unsigned depth = 0)
    {
        // Whether all the elements can be represented with the operators in force
        for (size_t i = 0; i < l.size(); ++i)
        {
            code_t c = l[i];
            switch (model::F(c))
            {
                case 0: try { define(t, s, c); } catch (Unsupported&) { return false; } break;
                case 1: if (!model::Y(c)) ++i; break;
                case 2:
                    switch (model::X(c))
                    {
                        case 1: s.width = model::Y(c) ? (int)model::Y(c) - 128 : 0; break;
                        case 2: s.scale = model::Y(c) ? (int)model::Y(c) - 128 : 0; break;
                        case 7: s.incr = model::Y(c); break;
                        case 8: s.strlen = model::Y(c); break;
                    }
                    break;
                case 3: if (depth > 20 || !can_list(t.d.at(c), s, depth + 1)) return false; break;
            }
        }
        return true;
    }

    code_t pick_element()
    {
        for (unsigned i = 0; i < 8; ++i)
        {
            const std::vector<const BEntry*>* l;
            switch (g.draw(8))
            {
                case 0: l = &t.strs; break;
                case 1: case 2: l = &t.codes; break;
                default: l = &t.nums; break;
            }
            if (l->empty()) continue;
            code_t c = (*l)[g.draw(l->size())]->code;
            if (can(c)) return c;
        }
        return 0;
    }

    void element(std::vector<code_t>& l)
    {
        code_t c = 0;
        // Class 31 as plain data
        static const unsigned plain31[] = { 21, 0, 1, 2, 31 };
        if (!af && g.chance(1, 60)) { code_t k = fxy(0, 31, g.pick(plain31)); if (t.find(k)) c = k; }
        if (!c) c = pick_element();
        if (!c) return;
        // Not to be taken as a delayed replication factor: the caller only
        // puts factors after delayed replicators
        l.push_back(c);
        --budget;
    }

    // Number of variables of a list, roughly
    void items(std::vector<code_t>& l, unsigned depth, unsigned max_items)
    {
        unsigned n = 1 + (unsigned)g.draw(max_items);
        for (unsigned i = 0; i < n && budget > 0 && l.size() < 55; ++i)
        {
            switch (g.draw(16))
            {
                case 0: case 1: sequence(l); break;
                case 2: case 3: if (depth < 3) { replication(l, depth); break; } /* fallthrough */
                case 4: case 5: if (depth < 3) { oper(l, depth); break; } /* fallthrough */
                case 6: if (depth < 2) { special(l, depth); break; } /* fallthrough */
                default: element(l);
            }
        }
        if (l.empty()) element(l);
        if (l.empty()) l.push_back(fxy(0, 1, 1)), --budget;
    }

    void sequence(std::vector<code_t>& l)
    {
        if (t.seqs.empty()) return element(l);
        for (unsigned i = 0; i < 5; ++i)
        {
            code_t c = g.pick(t.seqs);
            if (af && !t.seq_plain.at(c)) continue;
            if ((int)t.seq_size.at(c) > budget) continue;
            Ops s = ops;
            if (!can_list({c}, s)) continue;
            ops = s;
            l.push_back(c);
            budget -= (int)t.seq_size.at(c);
            return;
        }
        element(l);
    }

    void replication(std::vector<code_t>& l, unsigned depth)
    {
        std::vector<code_t> body;
        Ops before = ops;
        items(body, depth + 1, depth ? 2 : 4);
        // Leave the operators as they were found to have all the repetitions alike
        unbalance(body, before);
        if (body.size() > 60) { l.insert(l.end(), body.begin(), body.end()); return; }
        if (g.boolean())
        {
            static const unsigned f[] = { 0, 1, 2 };
            code_t fc = fxy(0, 31, g.pick(f));
            if (!t.find(fc)) fc = fxy(0, 31, 1);
            if (t.find(fc))
            {
                l.push_back(fxy(1, (unsigned)body.size(), 0));
                l.push_back(fc);
                l.insert(l.end(), body.begin(), body.end());
                return;
            }
        }
        unsigned n = 1 + (unsigned)g.draw(depth ? 2 : 4);
        budget -= (int)(body.size() * (n - 1));
        l.push_back(fxy(1, (unsigned)body.size(), n));
        l.insert(l.end(), body.begin(), body.end());
    }

    void unbalance(std::vector<code_t>& l, const Ops& before)
    {
        if (ops.width != before.width) { ops.width = before.width; l.push_back(fxy(2, 1, before.width ? (unsigned)(before.width + 128) : 0)); }
        if (ops.scale != before.scale) { ops.scale = before.scale; l.push_back(fxy(2, 2, before.scale ? (unsigned)(before.scale + 128) : 0)); }
        if (ops.incr != before.incr) { ops.incr = before.incr; l.push_back(fxy(2, 7, before.incr)); }
        if (ops.strlen != before.strlen) { ops.strlen = before.strlen; l.push_back(fxy(2, 8, before.strlen)); }
    }

    void oper(std::vector<code_t>& l, unsigned depth)
    {
        unsigned which = (unsigned)g.draw(4);
        switch (which)
        {
            case 0: ops.width = (int)g.range(-6, 10); l.push_back(fxy(2, 1, ops.width ? (unsigned)(ops.width + 128) : 0)); break;
            case 1: ops.scale = (int)g.range(-3, 4); l.push_back(fxy(2, 2, ops.scale ? (unsigned)(ops.scale + 128) : 0)); break;
            case 2: ops.incr = (unsigned)g.range(1, 3); l.push_back(fxy(2, 7, ops.incr)); break;
            case 3: ops.strlen = (unsigned)g.range(1, 40); l.push_back(fxy(2, 8, ops.strlen)); break;
        }
        unsigned n = 1 + (unsigned)g.draw(3);
        for (unsigned i = 0; i < n; ++i)
            if (which == 3 && !t.strs.empty() && g.boolean()) { l.push_back(g.pick(t.strs)->code); --budget; }
            else element(l);
        // Sometimes left in force
        if (g.chance(4, 5))
            switch (which)
            {
                case 0: ops.width = 0; l.push_back(fxy(2, 1, 0)); break;
                case 1: ops.scale = 0; l.push_back(fxy(2, 2, 0)); break;
                case 2: ops.incr = 0; l.push_back(fxy(2, 7, 0)); break;
                case 3: ops.strlen = 0; l.push_back(fxy(2, 8, 0)); break;
            }
    }

    void special(std::vector<code_t>& l, unsigned depth)
    {
        switch (g.draw(4))
        {
            case 0: {
                // Associated fields
                if (af || !t.find(fxy(0, 31, 21))) return element(l);
                static const unsigned w[] = { 1, 2, 3, 4, 6, 7, 8, 12, 16, 31, 32 };
                l.push_back(fxy(2, 4, g.pick(w)));
                l.push_back(fxy(0, 31, 21));
                --budget;
                af = true;
                Ops before = ops;
                unsigned n = 1 + (unsigned)g.draw(4);
                for (unsigned i = 0; i < n; ++i)
                    if (g.chance(1, 6)) sequence(l);
                    else if (g.chance(1, 6) && depth < 2) replication(l, 2);
                    else element(l);
                (void)before;
                af = false;
                l.push_back(fxy(2, 4, 0));
                break;
            }
            case 1: {
                if (o.only_compressible || af) return element(l);
                l.push_back(fxy(2, 5, (unsigned)g.range(1, g.chance(1, 10) ? 255 : 12)));
                --budget;
                break;
            }
            case 2: {
                if (af) return element(l);
                if (g.chance(1, 3))
                {
                    // Described in the table
                    code_t c = pick_element();
                    if (!c) return element(l);
                    RVar v = define(t, ops, c);
                    if (v.bits > 255) return element(l);
                    l.push_back(fxy(2, 6, v.bits));
                    l.push_back(c);
                } else if (!o.only_compressible) {
                    code_t c = fxy(0, (unsigned)g.range(1, 30), (unsigned)g.range(192, 255));
                    if (g.chance(1, 5)) { c = pick_element(); if (!c) return element(l); }
                    unsigned bits = (unsigned)g.range(1, g.chance(1, 6) ? 255 : 40);
                    // Not the width the table has
                    if (t.find(c) && (t.find(c)->is_string() || bits == t.find(c)->bits)) return element(l);
                    if (t.find(c)) try { if (define(t, ops, c).bits == bits) return element(l); } catch (Unsupported&) { return element(l); }
                    l.push_back(fxy(2, 6, bits));
                    l.push_back(c);
                } else
                    return element(l);
                --budget;
                break;
            }
            case 3: {
                // New reference values
                if (o.only_compressible || af || depth || ops.incr || !ops.refs.empty()) return element(l);
                std::vector<code_t> els;
                unsigned n = 1 + (unsigned)g.draw(3);
                for (unsigned i = 0; i < n; ++i)
                {
                    code_t c = t.nums.empty() ? 0 : g.pick(t.nums)->code;
                    if (c && can(c) && std::find(els.begin(), els.end(), c) == els.end()) els.push_back(c);
                }
                if (els.empty()) return element(l);
                l.push_back(fxy(2, 3, (unsigned)g.range(2, g.chance(1, 4) ? 32 : 16)));
                l.insert(l.end(), els.begin(), els.end());
                l.push_back(fxy(2, 3, 255));
                // Used at once, or a while later
                if (g.chance(1, 3)) for (unsigned k = (unsigned)g.draw(30); k; --k) element_plain(l);
                for (code_t c: els) { l.push_back(c); --budget; }
                if (g.boolean()) { l.push_back(els[g.draw(els.size())]); --budget; }
                if (g.boolean()) element_plain(l);
                l.push_back(fxy(2, 3, 0));
                if (g.boolean()) { l.push_back(els[g.draw(els.size())]); --budget; }
                break;
            }
        }
    }

    // An element that is in no list of altered reference values
    void element_plain(std::vector<code_t>& l)
    {
        if (!t.codes.empty()) { l.push_back(g.pick(t.codes)->code); --budget; }
    }
};

static std::vector<std::string>& table_ids()
{
    static std::vector<std::string> ids;
    if (ids.empty()) ids = model::list_tables('B');
    return ids;
}

Header gen_header(Gen& g)
{
    Header h;
    static const unsigned eds[] = { 4, 3, 2, 4 };
    h.edition = g.pick(eds);
    unsigned cmax = h.edition == 4 ? 65535 : 255;
    h.cat = (unsigned)g.draw(256);
    h.subcat_local = (unsigned)g.draw(256);
    h.subcat = h.edition == 4 ? (unsigned)g.draw(256) : 255;
    static const unsigned centres[] = { 0, 98, 200, 254, 85, 74 };
    h.centre = g.chance(1, 3) ? (unsigned)g.draw(cmax + 1) : g.pick(centres);
    h.subcentre = g.chance(1, 2) ? 0 : (unsigned)g.draw(cmax + 1);
    h.usn = (unsigned)g.draw(256);
    h.mtn = g.chance(1, 6) ? (unsigned)g.draw(256) : 0;
    h.mtv = g.chance(1, 8) ? (unsigned)g.draw(256) : (unsigned)g.range(11, 33);
    h.mtvl = g.chance(1, 2) ? 0 : (unsigned)g.draw(g.boolean() ? 4 : 256);
    if (h.edition == 4)
        h.year = g.chance(1, 4) ? (unsigned)g.draw(65536) : (unsigned)g.range(1951, 2050);
    else
        h.year = (unsigned)g.range(1951, 2050);
    h.month = (unsigned)(g.chance(1, 8) ? g.draw(256) : g.range(1, 12));
    h.day = (unsigned)(g.chance(1, 8) ? g.draw(256) : g.range(1, 31));
    h.hour = (unsigned)(g.chance(1, 8) ? g.draw(256) : g.range(0, 23));
    h.minute = (unsigned)(g.chance(1, 8) ? g.draw(256) : g.range(0, 59));
    h.second = h.edition == 4 ? (unsigned)g.draw(256) : 0;
    if (g.chance(1, 4)) h.optional = g.bytes(1 + g.draw(40));
    return h;
}

static void fill_header(const Header& h, BufrBulletin& b)
{
    b.edition_number = (uint8_t)h.edition;
    b.master_table_number = (uint8_t)h.mtn;
    b.data_category = (uint8_t)h.cat;
    b.data_subcategory = (uint8_t)h.subcat;
    b.data_subcategory_local = (uint8_t)h.subcat_local;
    b.originating_centre = (uint16_t)h.centre;
    b.originating_subcentre = (uint16_t)h.subcentre;
    b.update_sequence_number = (uint8_t)h.usn;
    b.rep_year = (uint16_t)h.year;
    b.rep_month = (uint8_t)h.month;
    b.rep_day = (uint8_t)h.day;
    b.rep_hour = (uint8_t)h.hour;
    b.rep_minute = (uint8_t)h.minute;
    b.rep_second = (uint8_t)h.second;
    b.master_table_version_number = (uint8_t)h.mtv;
    b.master_table_version_number_local = (uint8_t)h.mtvl;
    b.optional_section = h.optional;
}

// Bitmap blocks: codes are appended to the template and interpreted at once for
// all the subsets
struct Blocks
{
    Gen& g;
    Message& m;
    const GenOpts& o;
    std::vector<std::unique_ptr<Interp>>& in;

    void feed(const std::vector<code_t>& l)
    {
        m.desc.insert(m.desc.end(), l.begin(), l.end());
        for (auto& i: in) i->run(l);
    }

    void code(code_t c) { m.desc.push_back(c); }

    // Write a bitmap in all the subsets; false if not possible
    bool bitmap(code_t op)
    {
        const Tab& t = *m.tab;
        unsigned min = UINT_MAX;
        for (auto& i: in) min = std::min(min, i->elements());
        if (min == 0 || min == UINT_MAX) return false;
        bool delayed = g.chance(1, 3) && t.find(fxy(0, 31, 2));
        unsigned n = g.chance(1, 2) ? min : 1 + (unsigned)g.draw(min);
        if (!delayed && n > 255) n = 1 + (unsigned)g.draw(255);
        code(op);
        if (g.chance(1, 3)) code(fxy(2, 36, 0));
        code(fxy(1, 1, delayed ? 0 : n));
        if (delayed) code(fxy(0, 31, 2));
        code(fxy(0, 31, 31));
        std::string first;
        for (auto& i: in)
        {
            unsigned size = n;
            // Subsets can have bitmaps of different length
            if (delayed && !m.same_shape && g.boolean()) size = 1 + (unsigned)g.draw(i->elements());
            std::string bits = i->draw_bitmap(size);
            if (!delayed && !i->replay && &i != &in[0] && g.chance(1, 2)) bits = first;
            if (&i == &in[0]) first = bits;
            i->shape.bitmaps.push_back(bits);
            if (delayed)
            {
                Field f;
                f.bits = t.find(fxy(0, 31, 2))->bits;
                f.v = bits.size();
                f.uniform = true;
                i->add(f);
            }
            for (char c: bits)
            {
                Field f;
                f.bits = 1;
                f.v = c == '+' ? 0 : 1;
                f.uniform = true;
                i->add(f);
            }
            if (!i->set_bitmap(bits)) throw std::logic_error("bitmap too long");
            RVar v;
            v.code = op;
            v.kind = BITMAP;
            v.set = true;
            v.str = bits;
            v.bits = (unsigned)bits.size() * 8;
            i->out.vars.push_back(v);
        }
        ++m.n_bitmaps;
        return true;
    }

    // One value per bit present
    void values(code_t what, bool can_be_delayed)
    {
        const Tab& t = *m.tab;
        size_t n0 = in[0]->refs.size();
        bool same = true;
        for (auto& i: in) if (i->refs.size() != n0) same = false;
        // Sometimes stop before the last bit: the next use of the bitmap starts again
        size_t stop = SIZE_MAX;
        if (n0 > 1 && can_be_delayed && g.chance(1, 8))
        {
            stop = 1 + (size_t)g.draw(n0 - 1);
            for (auto& i: in) if (i->refs.size() <= stop) stop = SIZE_MAX;
            if (same && stop != SIZE_MAX) n0 = stop;
            if (stop != SIZE_MAX) m.features.insert("partial bitmap");
        }
        bool delayed = !same || n0 > 255 || n0 == 0 || (can_be_delayed && g.chance(1, 3));
        if (delayed && !can_be_delayed) { if (n0 == 0 && same) return; throw Discard("different bitmaps with fixed values"); }
        for (auto& i: in) i->start_bitmap();
        std::vector<code_t> l;
        if (delayed)
        {
            code_t fc = fxy(0, 31, 2);
            bool fits8 = true;
            for (auto& i: in) if (i->refs.size() > 255) fits8 = false;
            if (fits8 && t.find(fxy(0, 31, 1)) && g.boolean()) fc = fxy(0, 31, 1);
            l = { fxy(1, 1, 0), fc, what };
            for (auto& i: in) { i->forced.assign(1, (unsigned)std::min(stop, i->refs.size())); i->forced_pos = 0; }
        } else if (n0 == 1 && g.boolean()) {
            l = { what };
        } else if (n0 <= 3 && n0 > 0 && g.chance(1, 4)) {
            l.assign(n0, what);
        } else
            l = { fxy(1, 1, (unsigned)n0), what };
        feed(l);
    }

    void run()
    {
        const Tab& t = *m.tab;
        std::vector<code_t> quality;
        for (const auto& i: t.b)
            if (model::X(i.first) == 33 && usable(i.second) && !i.second.is_string()) quality.push_back(i.first);
        if (quality.empty()) return;
        unsigned n = 1 + (unsigned)g.draw(3);
        std::set<code_t> used;
        for (auto& i: in) for (auto& v: i->out.vars) { used.insert(v.code); for (auto& a: v.attrs) used.insert(a.code); }
        // These are also the attributes that hold associated fields
        if (m.features.count("C04")) for (const auto& a: af_codes) used.insert(fxy(0, 33, a.y));
        bool subst = false, have = false, clean = true;
        // A substituted value has the code of its variable: leave it out when
        // that is also the code of an attribute holding an associated field
        if (m.features.count("C04"))
            for (auto& i: in) for (auto& v: i->out.vars)
                for (const auto& a: af_codes) if (v.code == fxy(0, 33, a.y)) subst = true;
        for (unsigned b = 0; b < n; ++b)
        {
            bool s = !subst && g.chance(1, 3);
            code_t what = 0;
            if (!s)
            {
                for (unsigned k = 0; k < 10 && !what; ++k)
                {
                    code_t c = g.pick(quality);
                    Ops none;
                    try { define(t, in[0]->ops, c); } catch (Unsupported&) { continue; }
                    if (!used.count(c)) what = c;
                }
                if (!what) return;
                used.insert(what);
            } else
                subst = true;
            bool reuse = have && g.chance(1, 2);
            if (reuse)
            {
                code(s ? fxy(2, 23, 0) : fxy(2, 22, 0));
                code(fxy(2, 37, 0));
                for (auto& i: in) i->start_bitmap();
                ++m.n_reuse;
            } else {
                // A second bitmap is only unambiguous if no element came after
                // the first one
                if (have && !clean) return;
                if (have && g.chance(1, 3)) code(fxy(2, 37, 255));
                if (!bitmap(s ? fxy(2, 23, 0) : fxy(2, 22, 0))) return;
                have = true;
            }
            if (g.chance(1, 2) && t.find(fxy(0, 1, 31)) && t.find(fxy(0, 1, 32)))
            {
                try { define(t, in[0]->ops, fxy(0, 1, 31)); define(t, in[0]->ops, fxy(0, 1, 32)); feed({ fxy(0, 1, 31), fxy(0, 1, 32) }); clean = false; } catch (Unsupported&) {}
            }
            size_t before = in[0]->out.vars.size();
            values(s ? fxy(2, 23, 255) : what, true);
            if (in[0]->out.vars.size() != before) clean = false;
        }
        // More data after the last block
        if (g.chance(1, 4))
        {
            bool active = false;
            for (auto& i: in) if (i->bitmap_active) active = true;
            code_t c = fxy(0, 12, 101);
            try { if (!active && t.find(c)) { define(t, in[0]->ops, c); feed({ c }); } } catch (Unsupported&) {}
            if (!active && g.boolean())
            {
                // Class 33 is plain data when there is no bitmap in use
                code_t q = g.pick(quality);
                try { define(t, in[0]->ops, q); feed({ q }); } catch (Unsupported&) {}
            }
        }
    }
};

static const Tab* tab_for(const Header& h)
{
    auto b = BufrBulletin::create();
    fill_header(h, *b);
    b->load_tables();
    return get_tab(b->tables.btable->path(), b->tables.dtable->path());
}

Message gen_message(Gen& g, const GenOpts& o)
{
    Message m;
    m.h = gen_header(g);
    try {
        m.tab = tab_for(m.h);
    } catch (wreport::error_notfound&) {
        // No such tables: C14 is about which are found
        m.h.mtn = 0;
        m.h.mtv = 20;
        m.tab = tab_for(m.h);
    }
    m.compressible = true;
    m.same_shape = o.only_compressible || g.boolean();
    unsigned nsubsets = 1 + (unsigned)g.draw(o.max_subsets);
    if (nsubsets == 1) m.same_shape = true;
    unsigned huge = o.allow_huge && g.chance(1, 3000) ? 1 + (unsigned)g.draw(3) : 0;
    std::vector<unsigned> forced;
    if (huge == 1)
    {
        // Length of the message
        size_t n = (size_t)1 << g.range(8, 23);
        n += (size_t)g.draw(n - 1);
        m.h.optional.resize(n);
        uint64_t x = g.draw(0);
        for (auto& c: m.h.optional) { x = x * 6364136223846793005ull + 1442695040888963407ull; c = (char)(x >> 33); }
        m.features.insert("huge message");
    }
    if (huge == 3 && m.tab->find(fxy(0, 31, 2)) && m.tab->find(fxy(0, 31, 1)) && !m.tab->codes.empty())
    {
        // Number of repetitions
        static const unsigned counts[] = { 65535, 65534, 32768, 32767, 4096 };
        bool byte = g.chance(1, 3);
        forced.push_back(byte ? 255 - (unsigned)g.draw(2) : g.boolean() ? g.pick(counts) : (unsigned)g.range(256, 65535));
        m.desc = { fxy(1, 1, 0), fxy(0, 31, byte ? 1 : 2) };
        TemplateGen tg(g, *m.tab, o, 1);
        tg.element(m.desc);
        if (m.desc.size() != 3) throw Discard("no element");
        if (nsubsets > 2) nsubsets = 2;
        m.features.insert("huge replication");
    }
    else
    {
        bool few = o.small || huge == 2;
        TemplateGen tg(g, *m.tab, o, huge == 2 ? 2 : o.small ? 6 : 40);
        tg.items(m.desc, 0, huge == 2 ? 1 : few ? 3 : 8);
        if (huge == 2)
        {
            static const unsigned counts[] = { 255, 256, 257, 4096, 32767, 32768, 65535 };
            nsubsets = g.boolean() ? g.pick(counts) : (unsigned)g.range(100, 20000);
            m.same_shape = true;
            if (m.desc.size() > 4) nsubsets = 257;
            m.features.insert("huge number of subsets");
        }
    }
    m.subsets.resize(nsubsets);
    std::vector<std::unique_ptr<Interp>> in;
    try {
        for (unsigned i = 0; i < nsubsets; ++i)
        {
            bool follow = m.same_shape && i;
            in.emplace_back(new Interp(g, m, m.subsets[i], follow ? &in[0]->shape : nullptr, follow ? &m.subsets[0] : nullptr, o));
            in[i]->forced = forced;
            in[i]->run(m.desc);
        }
        if (o.want_bitmaps || (o.allow_bitmaps && huge < 2 && g.chance(1, 4)))
        {
            // Operators still in force would alter the quality information too
            Blocks b{g, m, o, in};
            b.run();
        }
    } catch (Unsupported& e) {
        throw Discard("template not representable: " + e.why);
    }
    if (!m.same_shape) m.compressible = false;
    for (const auto& s: m.subsets) if (s.fields.size() != m.subsets[0].fields.size()) m.compressible = false;
    return m;
}

std::string Message::describe() const
{
    std::string r = strf("ed%u centre %u:%u table %u.%u.%u %s subsets %zu; ", h.edition, h.centre, h.subcentre, h.mtn, h.mtv, h.mtvl,
            tab->bpath.substr(tab->bpath.rfind('/') + 1).c_str(), subsets.size());
    for (code_t c: desc) r += codestr(c) + " ";
    r += strf("; %zu variables", subsets[0].vars.size());
    return r;
}

// ---------------------------------------------------------------- writer

void BitWriter::put(uint64_t v, unsigned n)
{
    for (unsigned i = n; i-- > 0; )
    {
        if (nbits % 8 == 0) out += '\0';
        if ((v >> i) & 1) out.back() = (char)(out.back() | (0x80 >> (nbits % 8)));
        ++nbits;
    }
}

void BitWriter::ones(unsigned n) { for (unsigned i = 0; i < n; ++i) put(1, 1); }

void BitWriter::text(const std::string& s, unsigned bits)
{
    for (unsigned i = 0; i < bits / 8; ++i) put(i < s.size() ? (unsigned char)s[i] : ' ', 8);
}

void BitWriter::field(const Field& f)
{
    if (f.missing) { ones(f.bits); return; }
    switch (f.type)
    {
        case Field::INT: put(f.v, f.bits); break;
        case Field::TEXT: text(f.s, f.bits); break;
        case Field::RAW: {
            unsigned left = f.bits;
            for (char c: f.s) { unsigned n = std::min(8u, left); put((unsigned char)c, n); left -= n; }
            break;
        }
    }
}

std::string data_uncompressed(const Message& m, unsigned* nbits)
{
    BitWriter w;
    for (const auto& s: m.subsets)
        for (const auto& f: s.fields)
            w.field(f);
    if (nbits) *nbits = w.nbits;
    return w.out;
}

std::string data_compressed(const Message& m, Gen& g)
{
    BitWriter w;
    size_t n = m.subsets.size();
    for (size_t fi = 0; fi < m.subsets[0].fields.size(); ++fi)
    {
        const Field& f0 = m.subsets[0].fields[fi];
        auto at = [&](size_t i) -> const Field& { return m.subsets[i].fields[fi]; };
        bool all_missing = true, all_same = true;
        for (size_t i = 0; i < n; ++i)
        {
            if (!at(i).missing) all_missing = false;
            if (at(i).missing != f0.missing || at(i).v != f0.v || at(i).s != f0.s) all_same = false;
        }
        if (f0.uniform)
        {
            if (!all_same) throw std::logic_error("structure differs in a compressed message");
            w.field(f0);
            w.put(0, 6);
            continue;
        }
        if (all_missing)
        {
            w.ones(f0.bits);
            w.put(0, 6);
            continue;
        }
        if (f0.type == Field::TEXT)
        {
            unsigned chars = f0.bits / 8;
            if ((all_same && g.chance(3, 4)) || (all_same && chars > 63))
            {
                w.text(f0.s, f0.bits);
                w.put(0, 6);
                continue;
            }
            if (chars > 63) throw Discard("string too long to compress");
            // Enough characters for the longest
            size_t need = 1;
            for (size_t i = 0; i < n; ++i) if (!at(i).missing) need = std::max(need, at(i).s.size());
            unsigned k = g.chance(1, 4) ? (unsigned)need : chars;
            w.put(0, 0);
            for (unsigned i = 0; i < chars; ++i) w.put(0, 8);
            w.put(k, 6);
            for (size_t i = 0; i < n; ++i)
                if (at(i).missing) w.ones(k * 8);
                else w.text(at(i).s, k * 8);
            continue;
        }
        // Minimum value, then increments
        uint64_t min = UINT64_MAX, max = 0;
        bool some_missing = false;
        for (size_t i = 0; i < n; ++i)
        {
            if (at(i).missing) { some_missing = true; continue; }
            min = std::min(min, at(i).v);
            max = std::max(max, at(i).v);
        }
        uint64_t base = min;
        if (g.chance(1, 6)) base = min - g.draw(min + 1);
        unsigned k = 0;
        if (all_same && base == min && g.chance(3, 4))
        {
            w.put(base, f0.bits);
            w.put(0, 6);
            continue;
        }
        k = 1;
        // All ones is missing, so the largest increment must be less than that
        while (k < 32 && max - base > ones64(k) - 1) ++k;
        if (max - base > ones64(k) - 1) { base = min; k = 32; }
        if (max - base > ones64(k) - 1) throw Discard("increments do not fit");
        if (g.chance(1, 6) && k < 32) ++k;
        (void)some_missing;
        w.put(base, f0.bits);
        w.put(k, 6);
        for (size_t i = 0; i < n; ++i)
            if (at(i).missing) w.ones(k);
            else w.put(at(i).v - base, k);
    }
    return w.out;
}

static void be(std::string& o, uint64_t v, unsigned n)
{
    for (unsigned i = n; i-- > 0; ) o += (char)(v >> (8 * i));
}

std::string write(const Message& m, Gen& g, bool compressed)
{
    const Header& h = m.h;
    bool ed4 = h.edition == 4;
    // Section 1
    std::string s1;
    uint8_t flag = h.optional.empty() ? 0 : 0x80;
    if (!ed4)
    {
        be(s1, h.mtn, 1); be(s1, h.subcentre, 1); be(s1, h.centre, 1); be(s1, h.usn, 1); be(s1, flag, 1);
        be(s1, h.cat, 1); be(s1, h.subcat_local, 1); be(s1, h.mtv, 1); be(s1, h.mtvl, 1);
        // Year of century: 2000 is year 100 of its century, or 0 in practice
        unsigned yoc = h.year % 100;
        be(s1, yoc, 1);
        be(s1, h.month, 1); be(s1, h.day, 1); be(s1, h.hour, 1); be(s1, h.minute, 1);
        unsigned extra = 1 + 2 * (unsigned)g.draw(3);
        for (unsigned i = 0; i < extra; ++i) s1 += (char)g.byte();
    } else {
        be(s1, h.mtn, 1); be(s1, h.centre, 2); be(s1, h.subcentre, 2); be(s1, h.usn, 1); be(s1, flag, 1);
        be(s1, h.cat, 1); be(s1, h.subcat, 1); be(s1, h.subcat_local, 1); be(s1, h.mtv, 1); be(s1, h.mtvl, 1);
        be(s1, h.year, 2); be(s1, h.month, 1); be(s1, h.day, 1); be(s1, h.hour, 1); be(s1, h.minute, 1); be(s1, h.second, 1);
        unsigned extra = g.boolean() ? (unsigned)g.draw(6) : 0;
        for (unsigned i = 0; i < extra; ++i) s1 += (char)g.byte();
    }
    std::string sec1;
    be(sec1, s1.size() + 3, 3);
    sec1 += s1;
    std::string sec2;
    if (flag)
    {
        be(sec2, h.optional.size() + 4, 3);
        sec2 += (char)(g.chance(1, 4) ? g.byte() : 0);
        sec2 += h.optional;
    }
    std::string s3;
    s3 += '\0';
    be(s3, m.subsets.size(), 2);
    be(s3, (g.boolean() ? 0x80 : 0) | (compressed ? 0x40 : 0), 1);
    for (code_t c: m.desc) be(s3, c, 2);
    if (!ed4 || g.boolean()) s3 += '\0';
    std::string sec3;
    be(sec3, s3.size() + 3, 3);
    sec3 += s3;
    std::string d = compressed ? data_compressed(m, g) : data_uncompressed(m);
    unsigned pad = (unsigned)g.draw(3);
    if (!ed4 && (d.size() + pad) % 2) ++pad;
    d.append(pad, '\0');
    std::string sec4;
    be(sec4, d.size() + 4, 3);
    sec4 += (char)(g.chance(1, 8) ? g.byte() : 0);
    sec4 += d;
    std::string body = sec1 + sec2 + sec3 + sec4 + "7777";
    std::string res = "BUFR";
    be(res, body.size() + 8, 3);
    be(res, h.edition, 1);
    return res + body;
}

// ---------------------------------------------------------------- parser

Parsed parse(const std::string& b, bool even)
{
    Parsed p;
    auto u = [&](size_t pos, unsigned n) -> unsigned {
        unsigned v = 0;
        for (unsigned i = 0; i < n; ++i)
        {
            if (pos + i >= b.size()) throw Fail("encoded message is too short");
            v = (v << 8) | (unsigned char)b[pos + i];
        }
        return v;
    };
    if (b.compare(0, 4, "BUFR") != 0) throw Fail("encoded message does not start with BUFR");
    if (u(4, 3) != b.size()) throw Fail(strf("total length in section 0 is %u but the message is %zu bytes long", u(4, 3), b.size()));
    p.h.edition = u(7, 1);
    p.sec[0] = 0;
    p.sec[1] = 8;
    p.sec[2] = 8 + u(8, 3);
    size_t s = 8;
    unsigned flag;
    if (p.h.edition == 4)
    {
        if (p.sec[2] < 8 + 22) throw Fail("section 1 is too short");
        p.h.mtn = u(s + 3, 1); p.h.centre = u(s + 4, 2); p.h.subcentre = u(s + 6, 2); p.h.usn = u(s + 8, 1); flag = u(s + 9, 1);
        p.h.cat = u(s + 10, 1); p.h.subcat = u(s + 11, 1); p.h.subcat_local = u(s + 12, 1); p.h.mtv = u(s + 13, 1); p.h.mtvl = u(s + 14, 1);
        p.h.year = u(s + 15, 2); p.h.month = u(s + 17, 1); p.h.day = u(s + 18, 1); p.h.hour = u(s + 19, 1); p.h.minute = u(s + 20, 1); p.h.second = u(s + 21, 1);
    } else {
        if (p.sec[2] < 8 + 17) throw Fail("section 1 is too short");
        p.h.mtn = u(s + 3, 1); p.h.subcentre = u(s + 4, 1); p.h.centre = u(s + 5, 1); p.h.usn = u(s + 6, 1); flag = u(s + 7, 1);
        p.h.cat = u(s + 8, 1); p.h.subcat = 255; p.h.subcat_local = u(s + 9, 1); p.h.mtv = u(s + 10, 1); p.h.mtvl = u(s + 11, 1);
        p.h.year = u(s + 12, 1); p.h.month = u(s + 13, 1); p.h.day = u(s + 14, 1); p.h.hour = u(s + 15, 1); p.h.minute = u(s + 16, 1); p.h.second = 0;
    }
    if (flag & 0x7f) throw Fail("reserved bits of the flags of section 1 are set");
    p.has_optional = flag & 0x80;
    if (p.has_optional)
    {
        unsigned len = u(p.sec[2], 3);
        if (len < 4) throw Fail("section 2 is too short");
        p.sec[3] = p.sec[2] + len;
        if (p.sec[3] > b.size()) throw Fail("section 2 goes past the end");
        p.h.optional = b.substr(p.sec[2] + 4, len - 4);
    } else
        p.sec[3] = p.sec[2];
    unsigned len3 = u(p.sec[3], 3);
    p.sec[4] = p.sec[3] + len3;
    if (len3 < 7 || p.sec[4] > b.size()) throw Fail("bad length of section 3");
    p.subsets = u(p.sec[3] + 4, 2);
    unsigned f3 = u(p.sec[3] + 6, 1);
    p.observed = f3 & 0x80;
    p.compressed = f3 & 0x40;
    if (f3 & 0x3f) throw Fail("reserved bits of the flags of section 3 are set");
    for (unsigned i = 0; i < (len3 - 7) / 2; ++i) p.desc.push_back((code_t)u(p.sec[3] + 7 + 2 * i, 2));
    unsigned len4 = u(p.sec[4], 3);
    p.sec[5] = p.sec[4] + len4;
    if (len4 < 4 || p.sec[5] + 4 != b.size()) throw Fail(strf("section 4 is %u bytes long and ends at %zu, in a message of %zu", len4, p.sec[5], b.size()));
    p.data = b.substr(p.sec[4] + 4, len4 - 4);
    if (b.substr(p.sec[5]) != "7777") throw Fail("section 5 is not 7777");
    if (p.h.edition < 4)
        for (unsigned i = 1; i < 5; ++i)
            if (even && (p.sec[i + 1] - p.sec[i]) % 2) throw Fail(strf("section %u has an odd length in edition %u", i, p.h.edition));
    return p;
}

// ---------------------------------------------------------------- library side

Var build_var(const Tables& t, const RVar& v, code_t)
{
    Varinfo info;
    switch (v.kind)
    {
        case NUM: case STR:
            info = v.altered ? t.btable->query_altered(v.code, v.scale, v.bits, v.refv) : t.btable->query(v.code);
            break;
        case BIN: info = t.get_unknown(v.code, v.bits); break;
        case CHARS: info = t.get_chardata(v.code, v.bits / 8); break;
        case BITMAP: info = t.get_bitmap(v.code, v.str); break;
        default: throw std::logic_error("kind");
    }
    Var res(info);
    if (v.set)
    {
        if (v.kind == NUM) res.seti((int)v.val);
        else res.sets(v.str);
    }
    for (const auto& a: v.attrs) res.seta(build_var(t, a));
    return res;
}

// Replace a variable with one that has the same value but another definition:
// the one in the table, or one with more decimals
static unsigned restate(Gen& g, const Tables& t, const RVar& v, Var& var)
{
    if (!v.set || !v.altered) return 0;
    unsigned done = 0;
    if ((v.kind == NUM || v.kind == STR) && g.boolean())
    {
        Varinfo base = t.btable->query(v.code);
        if (v.kind == NUM && base->type != Vartype::String && g.chance(1, 4) && v.scale + 1 <= 10 && v.scale + 1 >= -10)
            base = t.btable->query_altered(v.code, v.scale + 1, 32, 0);
        Var res(base);
        bool ok = false;
        if (v.kind == STR)
        {
            ok = base->type == Vartype::String && v.str.size() <= base->len;
            if (ok) res.sets(v.str);
        } else if (base->type != Vartype::String) {
            __int128 n = v.val;
            int d = base->scale - v.scale;
            ok = d > -18 && d < 18;
            for (; ok && d > 0; --d) n *= 10;
            for (; ok && d < 0; ++d) { if (n % 10) ok = false; n /= 10; }
            if (n < base->imin || n > base->imax) ok = false;
            if (ok) res.seti((int)n);
        }
        if (ok)
        {
            res.setattrs(var);
            var = std::move(res);
            ++done;
        }
    }
    for (const auto& a: v.attrs)
    {
        const Var* o = var.enqa(a.code);
        if (!o || a.code != v.code) continue;
        Var n(*o);
        if (unsigned r = restate(g, t, a, n))
        {
            var.seta(n);
            done += r;
        }
    }
    return done;
}

unsigned restate(Gen& g, const Message& m, BufrBulletin& b)
{
    // The new reference values of 203YYY are taken from the variables
    for (auto d: m.desc) if (model::F(d) == 2 && model::X(d) == 3) return 0;
    unsigned res = 0;
    for (size_t i = 0; i < m.subsets.size(); ++i)
        for (size_t j = 0; j < m.subsets[i].vars.size(); ++j)
            res += restate(g, b.tables, m.subsets[i].vars[j], b.subsets[i][j]);
    return res;
}

std::unique_ptr<BufrBulletin> build(const Message& m)
{
    auto b = BufrBulletin::create();
    fill_header(m.h, *b);
    b->load_tables();
    b->datadesc = std::vector<Varcode>(m.desc.begin(), m.desc.end());
    for (size_t i = 0; i < m.subsets.size(); ++i)
    {
        Subset& s = b->obtain_subset((unsigned)i);
        for (const auto& v: m.subsets[i].vars) s.store_variable(build_var(b->tables, v));
    }
    return b;
}

std::string var_text(const Var& v)
{
    std::string r = codestr(v.code()) + strf("[s%d b%u r%d]", v.info()->scale, v.info()->bit_len, v.info()->bit_ref);
    if (!v.isset()) return r + "=missing";
    if (v.info()->type == Vartype::Integer || v.info()->type == Vartype::Decimal) return r + "=" + std::to_string(v.enqi());
    return r + "=" + quote(v.enqs());
}

static std::string rvar_text(const RVar& v)
{
    std::string r = codestr(v.code) + strf("[s%d b%u r%d]", v.scale, v.bits, v.refv);
    if (!v.set) return r + "=missing";
    return v.kind == NUM ? r + "=" + std::to_string(v.val) : r + "=" + quote(v.str);
}

static void same(const RVar& e, const Var& v, const std::string& where)
{
    auto fail = [&](const char* what) {
        throw Fail(where + ": " + what + ": expected " + rvar_text(e) + " got " + var_text(v));
    };
    if (v.code() != e.code) fail("code");
    if (e.kind == NUM || e.kind == STR)
    {
        if ((int)v.info()->scale != e.scale && e.kind == NUM) fail("scale");
        if (v.info()->bit_len != e.bits) fail("width");
        if (v.info()->bit_ref != e.refv && e.kind == NUM) fail("reference value");
    } else if (e.kind == BIN) {
        if (v.info()->bit_len != e.bits) fail("width");
        if (v.info()->type != Vartype::Binary) fail("type");
    }
    if (v.isset() != e.set) fail("missing");
    if (!e.set) return;
    if (e.kind == NUM)
    {
        if (v.info()->type != Vartype::Integer && v.info()->type != Vartype::Decimal) fail("type");
        if (v.enqi() != e.val) fail("value");
    } else {
        std::string s = v.enqs();
        if (e.kind == BIN) s = std::string(v.enqc(), (e.bits + 7) / 8);
        // Blanks at the end are padding
        else if (e.str.empty() && s == " ") s.clear();
        if (s != e.str) fail("value");
    }
}

void compare_vars(const std::vector<RVar>& exp, const Subset& s, const std::string& what)
{
    for (size_t i = 0; i < exp.size() && i < s.size(); ++i)
    {
        std::string where = what + strf(" variable %zu", i);
        same(exp[i], s[i], where);
        std::vector<const RVar*> ea;
        for (const auto& a: exp[i].attrs) if (a.set) ea.push_back(&a);
        std::sort(ea.begin(), ea.end(), [](const RVar* a, const RVar* b) { return a->code < b->code; });
        std::vector<const Var*> la;
        for (const Var* a = s[i].next_attr(); a; a = a->next_attr()) if (a->isset()) la.push_back(a);
        for (size_t k = 0; k < ea.size() && k < la.size(); ++k)
            same(*ea[k], *la[k], where + strf(" (%s) attribute", codestr(exp[i].code).c_str()));
        if (ea.size() != la.size())
        {
            std::string t;
            for (auto a: ea) t += " expected " + rvar_text(*a);
            for (auto a: la) t += " got " + var_text(*a);
            throw Fail(where + strf(" (%s): %zu attributes instead of %zu:", codestr(exp[i].code).c_str(), la.size(), ea.size()) + t);
        }
    }
    if (s.size() != exp.size()) throw Fail(what + strf(": %zu variables instead of %zu", (size_t)s.size(), exp.size()));
}

void compare(const Message& m, const BufrBulletin& b, const char* what, bool header)
{
    const Header& h = m.h;
    auto eq = [&](const char* n, unsigned a, unsigned e) {
        if (a != e) throw Fail(strf("%s: header field %s is %u instead of %u", what, n, a, e));
    };
    eq("edition_number", b.edition_number, h.edition);
    eq("master_table_number", b.master_table_number, h.mtn);
    eq("data_category", b.data_category, h.cat);
    eq("data_subcategory", b.data_subcategory, h.subcat);
    eq("data_subcategory_local", b.data_subcategory_local, h.subcat_local);
    eq("originating_centre", b.originating_centre, h.centre);
    eq("originating_subcentre", b.originating_subcentre, h.subcentre);
    eq("update_sequence_number", b.update_sequence_number, h.usn);
    eq("rep_year", b.rep_year, h.year);
    eq("rep_month", b.rep_month, h.month);
    eq("rep_day", b.rep_day, h.day);
    eq("rep_hour", b.rep_hour, h.hour);
    eq("rep_minute", b.rep_minute, h.minute);
    eq("rep_second", b.rep_second, h.second);
    eq("master_table_version_number", b.master_table_version_number, h.mtv);
    eq("master_table_version_number_local", b.master_table_version_number_local, h.mtvl);
    if (b.optional_section != h.optional)
        throw Fail(strf("%s: optional section is ", what) + hex(b.optional_section) + " instead of " + hex(h.optional));
    if (b.datadesc.size() != m.desc.size() || !std::equal(m.desc.begin(), m.desc.end(), b.datadesc.begin()))
        throw Fail(strf("%s: data descriptors differ", what));
    if (b.subsets.size() != m.subsets.size())
        throw Fail(strf("%s: %zu subsets instead of %zu", what, b.subsets.size(), m.subsets.size()));
    for (size_t i = 0; i < m.subsets.size(); ++i)
        compare_vars(m.subsets[i].vars, b.subset((unsigned)i), strf("%s: subset %zu", what, i));
}

static std::string rtrim(const char* p)
{
    std::string s(p);
    while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back();
    return s;
}

static void same_var(const Var& a, const Var& b, const std::string& where, bool trim)
{
    // Padding is not part of a string
    if (trim && a.isset() && b.isset() && a.code() == b.code() && a.info()->type == Vartype::String && b.info()->type == Vartype::String
            && a.info()->len == b.info()->len && rtrim(a.enqc()) == rtrim(b.enqc())) return;
    std::string ta = var_text(a), tb = var_text(b);
    if (ta != tb) throw Fail(where + ": " + ta + " became " + tb);
    if (a.isset() && a.info()->type == Vartype::Binary)
    {
        size_t n = (a.info()->bit_len + 7) / 8;
        if (std::string(a.enqc(), n) != std::string(b.enqc(), n)) throw Fail(where + ": binary value differs");
    }
}

void compare_bulletins(const Bulletin& a, const Bulletin& b, const char* what, bool unset_attrs, bool trim)
{
    auto eq = [&](const char* n, unsigned x, unsigned y) {
        if (x != y) throw Fail(strf("%s: header field %s is %u in one and %u in the other", what, n, x, y));
    };
    eq("master_table_number", a.master_table_number, b.master_table_number);
    eq("data_category", a.data_category, b.data_category);
    eq("data_subcategory", a.data_subcategory, b.data_subcategory);
    eq("data_subcategory_local", a.data_subcategory_local, b.data_subcategory_local);
    eq("originating_centre", a.originating_centre, b.originating_centre);
    eq("originating_subcentre", a.originating_subcentre, b.originating_subcentre);
    eq("update_sequence_number", a.update_sequence_number, b.update_sequence_number);
    eq("rep_year", a.rep_year, b.rep_year);
    eq("rep_month", a.rep_month, b.rep_month);
    eq("rep_day", a.rep_day, b.rep_day);
    eq("rep_hour", a.rep_hour, b.rep_hour);
    eq("rep_minute", a.rep_minute, b.rep_minute);
    eq("rep_second", a.rep_second, b.rep_second);
    const BufrBulletin* ab = dynamic_cast<const BufrBulletin*>(&a);
    const BufrBulletin* bb = dynamic_cast<const BufrBulletin*>(&b);
    if (ab && bb)
    {
        eq("edition_number", ab->edition_number, bb->edition_number);
        eq("master_table_version_number", ab->master_table_version_number, bb->master_table_version_number);
        eq("master_table_version_number_local", ab->master_table_version_number_local, bb->master_table_version_number_local);
        if (ab->optional_section != bb->optional_section) throw Fail(strf("%s: optional sections differ", what));
    }
    const CrexBulletin* ac = dynamic_cast<const CrexBulletin*>(&a);
    const CrexBulletin* bc = dynamic_cast<const CrexBulletin*>(&b);
    if (ac && bc)
    {
        eq("edition_number", ac->edition_number, bc->edition_number);
        eq("master_table_version_number", ac->master_table_version_number, bc->master_table_version_number);
        eq("master_table_version_number_local", ac->master_table_version_number_local, bc->master_table_version_number_local);
        eq("master_table_version_number_bufr", ac->master_table_version_number_bufr, bc->master_table_version_number_bufr);
    }
    if (a.datadesc != b.datadesc) throw Fail(strf("%s: data descriptors differ", what));
    if (a.subsets.size() != b.subsets.size()) throw Fail(strf("%s: %zu subsets and %zu", what, a.subsets.size(), b.subsets.size()));
    for (unsigned i = 0; i < a.subsets.size(); ++i)
    {
        const Subset& s = a.subset(i);
        const Subset& t = b.subset(i);
        if (s.size() != t.size()) throw Fail(strf("%s: subset %u has %zu variables and %zu", what, i, (size_t)s.size(), (size_t)t.size()));
        for (unsigned k = 0; k < s.size(); ++k)
        {
            std::string where = strf("%s: subset %u variable %u", what, i, k);
            same_var(s[k], t[k], where, trim);
            const Var* x = s[k].next_attr();
            const Var* y = t[k].next_attr();
            while (true)
            {
                if (!unset_attrs)
                {
                    while (x && !x->isset()) x = x->next_attr();
                    while (y && !y->isset()) y = y->next_attr();
                }
                if (!x || !y) break;
                same_var(*x, *y, where + " attribute", trim);
                x = x->next_attr();
                y = y->next_attr();
            }
            if (x || y) throw Fail(where + ": " + (x ? "lost" : "gained") + " attribute " + var_text(x ? *x : *y));
        }
    }
}

}
