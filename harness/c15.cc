// C15: the status of a sampling procedure
#include "sym.h"
#include <string>
#include <vector>
#include <sstream>
#include <stdexcept>
#include <cstdlib>
#include <frackit/common/id.hh>
#include <frackit/sampling/status.hh>
using namespace Frackit;

// what was written to the terminal since the last call
struct Output
{
#ifdef SHADOW_IO_HH
    std::size_t n, v;
    Output() : n(std::cout.text.size()), v(std::cout.values.size()) {}
    std::string text() const { return std::cout.text.substr(n); }
    bool number(const std::string& s, int i, double x) const
    { return s == "@" && std::cout.values.size() > v+i && !(std::cout.values[v+i]-x > 1e-6) && !(x-std::cout.values[v+i] > 1e-6); }
#else
    std::stringbuf buf; std::streambuf* old;
    Output() : old(std::cout.rdbuf(&buf)) {}
    ~Output() { std::cout.rdbuf(old); }
    std::string text() const { return buf.str(); }
    bool number(const std::string& s, int, double x) const { return std::abs(std::strtod(s.c_str(), nullptr)-x) <= 0.00501; }
#endif
    bool has(const char* s) const { return text().find(s) != std::string::npos; }
};
static const std::size_t ids[3] = {3, 0, 7};
struct Model { bool known[3] = {}; bool target[3] = {}; std::size_t t[3] = {}, c[3] = {}; std::size_t rejected = 0; bool rejectedKnown = true; };

static void observe(SamplingStatus& s, const Model& m)
{
    bool all = true; std::size_t sum = 0;
    for (int i = 0; i < 3; ++i) { sum += m.c[i]; all = all & (!m.target[i] | (m.c[i] >= m.t[i])); }
    sym_assert(s.getCount() == sum, "overall count");
    for (int i = 0; i < 3; ++i) sym_assert(s.getCount(Id(ids[i])) == m.c[i], "count of an id");
    for (int i = 0; i < 3; ++i)
    {
        bool thrown = false, f = false;
        try { f = s.finished(Id(ids[i])); } catch (const std::runtime_error&) { thrown = true; }
        if (m.target[i]) sym_assert(!thrown & (f == (m.c[i] >= m.t[i])), "an id is finished when its target is reached");
        else if (!m.known[i]) sym_assert(thrown, "an unknown id is an error");
    }
    sym_assert(s.finished() == all, "finished when all targets are reached");
}
#ifdef THOROUGH
#define STEPS 4
#else
#define STEPS 3
#endif
HARNESS(c15_history)
{
    SamplingStatus s; Model m;
    for (int k = 0; k < STEPS; ++k)
    {
        const long op = sym_choice("op", 6);
        if (op == 0)
        {
            const long i = sym_choice("id", 2);
            const std::size_t t = sym_int("target", 0, 1000);
            Output o;
            s.setTargetCount(Id(ids[i]), t);
            const bool below = sym_force(m.known[i] & (m.c[i] > t));
            sym_assert(o.has("Warning") == below, "a target below the count is warned about");
            m.known[i] = m.target[i] = true; m.t[i] = t;
        }
        else if (op == 1)
        {
            const long i = sym_choice("id", 2), n = 1 + sym_choice("n", 2);
            for (long j = 0; j < n; ++j)
            {
                if (!m.target[i]) sym_skip();
                Output o;
                s.increaseCounter(Id(ids[i])); m.c[i]++;
                const bool over = sym_force(m.c[i] > m.t[i]);
                sym_assert(o.has("Warning") == over, "a surpassed target is warned about");
            }
        }
        else if (op == 2) { s.reset(); m = Model(); }
        else if (op == 3) { s.resetCounters(); for (auto& c : m.c) c = 0; }
        else if (op == 4) { const long i = sym_choice("id", 3); s.resetCounter(Id(ids[i])); m.c[i] = 0; }
        else { s.increaseRejectedCounter(); sym_assert(s.getCount(Id(ids[2])) == 0, "count of an unknown id"); }
    }
    observe(s, m);
}
// large counts
HARNESS(c15_many)
{
    SamplingStatus s; Model m;
    const std::size_t t = sym_int("target", 0, 40);
    s.setTargetCount(Id(3), t); m.known[0] = m.target[0] = true; m.t[0] = t;
    if (sym_bool("two")) { s.setTargetCount(Id(0), 2); m.known[1] = m.target[1] = true; m.t[1] = 2; }
    std::size_t n = 0;
    while (!s.finished(Id(3))) { s.increaseCounter(Id(3)); m.c[0]++; sym_assert(++n <= 40, "as many samples as the target"); }
    sym_assert(n == t, "exactly the target is sampled");
    observe(s, m);
}
// the table: blank separated words of the last line
static std::vector<std::string> words(const std::string& s)
{
    std::vector<std::string> w; std::string cur;
    for (char c : s) { if (c == ' ' || c == '\n' || c == '|') { if (!cur.empty()) w.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) w.push_back(cur);
    return w;
}
static std::string lastLine(std::string s)
{
    while (!s.empty() && s.back() == '\n') s.pop_back();
    const auto p = s.rfind('\n');
    return p == std::string::npos ? s : s.substr(p+1);
}
HARNESS(c15_print)
{
    SamplingStatus s;
    static const std::size_t targets[4] = {0, 1, 3, 700};
    const long nt = sym_choice("ids", 3);
    std::size_t target = 0, count = 0, rejected = 0;
    for (long i = 0; i < nt; ++i)
    {
        const std::size_t t = targets[sym_choice("target", 4)];
        s.setTargetCount(Id(ids[i]), t); target += t;
    }
    static const int many[4] = {0, 1, 2, 1200};
    if (nt > 0)
    {
        const int n = many[sym_choice("count", 4)];
        for (int i = 0; i < n; ++i) s.increaseCounter(Id(ids[nt-1]));
        count = n;
    }
    const long r = sym_choice("rejected", 3);
    for (long i = 0; i < r; ++i) { s.increaseRejectedCounter(); ++rejected; }
    bool header = true;
    for (int k = 0; k < 2; ++k)
    {
        const bool force = k == 1 && sym_bool("force");
        if (k == 1 && sym_bool("reset")) { s.reset(); header = true; count = target = rejected = 0; }
        Output o;
        try { force ? s.print(true) : s.print(); } catch (const std::exception&) { sym_fail("printing the status fails"); }
        sym_assert(o.has("Accepted count") == (header | force), "the header is printed once");
        header = false;
        const auto w = words(lastLine(o.text()));
        sym_assert(w.size() == 4, "four columns");
        sym_assert(w[0] == std::to_string(count), "accepted count");
        sym_assert(w[1] == std::to_string(rejected), "rejected count");
        if (count + rejected > 0) sym_assert(o.number(w[2], 0, 100.0*count/(count+rejected)), "acceptance ratio");
        if (target > 0) sym_assert(o.number(w[3], 1, 100.0*count/target), "progress");
    }
}
