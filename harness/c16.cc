// C16: sampling strategies, samplers of several geometries
#include "sym.h"
#include <string>
#include <vector>
#include <memory>
#include <utility>
#include <stdexcept>
#include <cassert>
#include <tuple>
#include <type_traits>
#include <frackit/common/id.hh>
#include <frackit/geometry/geometry.hh>
#include <frackit/sampling/geometrysampler.hh>
#include <frackit/sampling/sequentialsamplingstrategy.hh>
#include <frackit/sampling/multigeometrysampler.hh>
using namespace Frackit;

// geometries carry the sampler and the number of the sample
template<int t> struct Geo : public Geometry
{
    int tag, n;
    Geo(int tg, int k) : tag(tg), n(k) {}
    std::string name() const override { return "Geo"; }
};
template<int t> struct Sampler : public GeometrySampler<Geo<t>>
{
    int tag, n = 0;
    explicit Sampler(int tg) : tag(tg) {}
    Geo<t> operator()() override { return Geo<t>(tag, n++); }
};
// last id first, takes each id twice
struct Backwards : public SamplingStrategy
{
    std::size_t calls = 0;
    Id getNextId() override
    {
        if (idList_.empty()) throw std::runtime_error("empty");
        const std::size_t k = (calls++/2) % idList_.size();
        return idList_[idList_.size()-1-k];
    }
};
using Multi = MultiGeometrySampler<Geo<0>, Geo<1>, Geo<2>>;
static std::size_t anyId() { return sym_int("id", 0, 1000000000); }

HARNESS(c16_strategy)
{
    SequentialSamplingStrategy s;
    std::vector<std::size_t> list; std::size_t cur = 0;
#ifdef THOROUGH
    const int steps = 8;
#else
    const int steps = 6;
#endif
    for (int k = 0; k < steps; ++k)
    {
        if (sym_choice("op", 2) == 0)
        {
            const std::size_t id = anyId();
            bool known = false;
            for (auto i : list) known = known | (i == id);
            sym_assert(s.hasId(Id(id)) == known, "the ids added are known");
            s.addId(Id(id));
            if (!sym_force(known)) list.push_back(id);
            sym_assert(s.hasId(Id(id)), "an id added is known");
        }
        else if (list.empty())
        {
            bool thrown = false;
            try { s.getNextId(); } catch (const std::runtime_error&) { thrown = true; }
            sym_assert(thrown, "no ids, no next one");
        }
        else
        {
            const Id id = s.getNextId();
            sym_assert(id.get() == list[cur], "the ids take turns in the order they were added");
            cur = (cur+1) % list.size();
        }
    }
    const std::size_t id = anyId();
    bool known = false;
    for (auto i : list) known = known | (i == id);
    sym_assert(s.hasId(Id(id)) == known, "other ids are unknown");
}

struct Entry { std::size_t id; int type, tag, n; };
template<class Adv>
static void history(Multi& m, std::vector<Entry> entries, Adv next, int steps)
{
    Sampler<0> s0(100); Sampler<1> s1(200); Sampler<2> s2(300);
    for (int k = 0; k < steps; ++k)
    {
        const long c = sym_choice("op", 3), op = c == 2 ? 3 : (k+c)%3;
        if (op < 3)
        {
            const std::size_t id = anyId();
            // the sampler is copied: changes of the original do not count
            s0.tag = 100+k; s1.tag = 200+k; s2.tag = 300+k;
            bool taken = false, thrown = false;
            for (auto& e : entries) taken = taken | (e.id == id);
            try
            {
                if (op == 0) m.addGeometrySampler(s0, Id(id));
                else if (op == 1) m.addGeometrySampler(s1, Id(id));
                else m.addGeometrySampler(s2, Id(id));
            }
            catch (const std::runtime_error&) { thrown = true; }
            sym_assert(thrown == taken, "an id is used once");
            if (!thrown) entries.push_back({id, int(op), int(100*(op+1)+k), 0});
            s0.n = s1.n = s2.n = 50;
            s0.tag = s1.tag = s2.tag = 0; s0.n = s1.n = s2.n = 0;
        }
        else
        {
            Id id(2000000000); bool thrown = false; std::shared_ptr<Geometry> g;
            try { g = m(id); } catch (const std::runtime_error&) { thrown = true; }
            if (entries.empty()) { sym_assert(thrown, "nothing to sample from"); continue; }
            Entry& e = entries[next(entries.size())];
            if (e.type < 0) { sym_assert(thrown, "an id without sampler is an error"); continue; }
            sym_assert(!thrown, "a geometry is sampled");
            sym_assert(id.get() == e.id, "the id of the sampler used");
            sym_assert(g != nullptr, "a geometry is returned");
            int type = -1, tag = -1, n = -1;
            if (auto p = dynamic_cast<Geo<0>*>(g.get())) { type = 0; tag = p->tag; n = p->n; }
            else if (auto q = dynamic_cast<Geo<1>*>(g.get())) { type = 1; tag = q->tag; n = q->n; }
            else if (auto r = dynamic_cast<Geo<2>*>(g.get())) { type = 2; tag = r->tag; n = r->n; }
            sym_assert((type == e.type) & (tag == e.tag), "the geometry comes from the sampler of the id");
            sym_assert(n == e.n, "every sample is a new one");
            ++e.n;
        }
    }
}
#ifdef THOROUGH
#define STEPS 6
#else
#define STEPS 5
#endif
HARNESS(c16_multi)
{
    std::size_t cur = 0;
    auto next = [&] (std::size_t n) { const std::size_t r = cur; cur = (cur+1) % n; return r; };
    if (sym_bool("given")) { Multi m{SequentialSamplingStrategy()}; history(m, {}, next, STEPS-1); }
    else { Multi m; history(m, {}, next, STEPS); }
}
HARNESS(c16_custom)
{
    std::size_t calls = 0;
    auto next = [&] (std::size_t n) { const std::size_t k = (calls++/2) % n; return n-1-k; };
    Backwards b;
    std::vector<Entry> entries;
    if (sym_bool("ids")) { const std::size_t id = anyId(); b.addId(Id(id)); entries.push_back({id, -1, 0, 0}); }
    if (sym_bool("set")) { Multi m; m.setSamplingStrategy(b); b.addId(Id(2000000001)); history(m, entries, next, STEPS-1); }
    else { Multi m(b); b.addId(Id(2000000001)); history(m, entries, next, STEPS-1); }
}
