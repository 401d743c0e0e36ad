// Drives the library through its public interface and records every call
// with its arguments and its result, one JSON object per line, for Trace.tla.
//
//   driver COMMANDS OUT FIRST_SESSION
//
// COMMANDS is a text file of sessions; every session starts with
// "begin SID WIDE". Pixels are numbered 1 + x + width * y in the log.
#include <constraint_graph.hpp>
#include <disparity_graph.hpp>
#include <image.hpp>
#include <indexing.hpp>
#include <indexing_checks.hpp>
#include <labeling_finder.hpp>
#include <lowest_penalties.hpp>

#ifdef CONC
#include "sched.hpp"
#endif

#ifdef GPU
extern "C" void fakecl_seed(unsigned long seed, int mode);
extern "C" long fakecl_launches();
#endif

#include <unistd.h>

#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <random>
#include <sstream>
#include <string>
#include <vector>

using namespace sp::types;
using namespace sp::image;
using namespace sp::indexing;
using namespace sp::indexing::checks;
using namespace sp::graph::disparity;
using namespace sp::graph::lowest_penalties;
using namespace sp::graph::constraint;
using namespace sp::labeling::finder;
using std::string;
using std::vector;

static FILE* out;
static const long INEXACT = 1999999999L;   // never a value of the model

struct Js
{
    string b = "{";
    bool first = true;
    void key(const char* k)
    {
        if (!first) b += ",";
        first = false;
        b += "\""; b += k; b += "\":";
    }
    Js& s(const char* k, const string& v) { key(k); b += "\"" + v + "\""; return *this; }
    Js& i(const char* k, long v) { key(k); b += std::to_string(v); return *this; }
    Js& raw(const char* k, const string& v) { key(k); b += v; return *this; }
    void emit() { b += "}\n"; fputs(b.c_str(), out); fflush(out); }
};

template <class T> static string list(const vector<T>& v, std::function<string(const T&)> f)
{
    string r = "[";
    for (size_t k = 0; k < v.size(); ++k) { if (k) r += ","; r += f(v[k]); }
    return r + "]";
}
static string ints(const vector<long>& v)
{
    return list<long>(v, [](const long& x) { return std::to_string(x); });
}
static string rows(const vector<vector<long>>& v)
{
    return list<vector<long>>(v, [](const vector<long>& x) { return ints(x); });
}

// ULONG into something TLC can hold; -1 stands for the wrapped value.
static long small(ULONG v)
{
    if (v == static_cast<ULONG>(-1)) return -1;
    return v > 1000000000UL ? INEXACT : static_cast<long>(v);
}
static ULONG ul(long v) { return static_cast<ULONG>(v); }

// Objects are created where former ones of the type were, as on a stack, so
// that something remembered by address would be found to be outdated.
template <class T> struct Recycle
{
    static vector<void*>& free()
    {
        static vector<void*> f;
        return f;
    }
    void operator()(T* p) const
    {
        p->~T();
        free().push_back(p);
    }
};
template <class T> using Own = std::unique_ptr<T, Recycle<T>>;
template <class T, class... A> static Own<T> make(A&&... a)
{
    auto& f = Recycle<T>::free();
    if (f.empty()) f.push_back(::operator new(sizeof(T)));
    Own<T> r(new (f.back()) T{std::forward<A>(a)...});
    f.pop_back();
    return r;
}

struct Session
{
    long sid = 0;
    bool wide = false;
    long den = 1;
    ULONG w = 0, h = 0, D = 0;
    vector<long> L, R;               // pixel order of the log = row-major
    long m = 0, c = 0, s = 0;
    Own<DisparityGraph> dg;
    Own<LowestPenalties> lp;
    vector<Own<LowestPenalties>> olp;   // still referred to by graphs
    vector<Own<ConstraintGraph>> cg;
    vector<FLOAT> cands;
    FLOAT thr = 0;
    vector<vector<vector<FLOAT>>> phi;   // [p][k][d]
    bool dead = false;

    size_t P() const { return w * h; }
    Pixel px(size_t p) const { return Pixel{p % w, p / w}; }
    bool has(size_t p, int k) const
    {
        ULONG x = p % w, y = p / w;
        return k == 0 ? x + 1 < w : k == 1 ? x > 0 : k == 2 ? y + 1 < h : y > 0;
    }
    size_t nb(size_t p, int k) const
    {
        return k == 0 ? p + 1 : k == 1 ? p - 1 : k == 2 ? p + w : p - w;
    }
    bool hasNode(size_t p, ULONG d) const { return d < D && p % w + d < w; }
    bool hasEdge(size_t p, int k, ULONG d, ULONG e) const
    {
        if (!has(p, k) || !hasNode(p, d) || !hasNode(nb(p, k), e)) return false;
        if (k == 0 && d > e + 1) return false;
        if (k == 1 && e > d + 1) return false;
        return true;
    }
    Edge edge(size_t p, int k, ULONG d, ULONG e) const
    {
        return Edge{{px(p), d}, {px(nb(p, k)), e}};
    }
    string num(double v) const
    {
        double x = v * den;
        if (!(std::fabs(x) < 1e13) || x != std::floor(x))
        {
            return wide ? "[1999999999,0]" : std::to_string(INEXACT);
        }
        long long n = static_cast<long long>(x);
        if (wide)
        {
            long long hi = n >= 0 ? n / 32768 : -((-n + 32767) / 32768);
            return "[" + std::to_string(hi) + "," + std::to_string(n - hi * 32768) + "]";
        }
        if (n > 1900000000LL || n < -1900000000LL) return std::to_string(INEXACT);
        return std::to_string(n);
    }
    string nums(const vector<FLOAT>& v) const
    {
        string r = "[";
        for (size_t k = 0; k < v.size(); ++k) { if (k) r += ","; r += num(v[k]); }
        return r + "]";
    }
    string np() const
    {
        string r = "[";
        for (size_t p = 0; p < P(); ++p)
        {
            if (p) r += ",";
            vector<FLOAT> v;
            for (ULONG d = 0; d < D; ++d)
                v.push_back(hasNode(p, d) ? node_penalty(dg.get(), Node{px(p), d}) : 0);
            r += nums(v);
        }
        return r + "]";
    }
    string ep() const
    {
        string r = "[";
        for (size_t p = 0; p < P(); ++p)
        {
            r += p ? ",[" : "[";
            for (int k = 0; k < 4; ++k)
            {
                r += k ? ",[" : "[";
                for (ULONG d = 0; d < D; ++d)
                {
                    if (d) r += ",";
                    vector<FLOAT> v;
                    for (ULONG e = 0; e < D; ++e)
                        v.push_back(hasEdge(p, k, d, e) ? edge_penalty(dg.get(), edge(p, k, d, e)) : 0);
                    r += nums(v);
                }
                r += "]";
            }
            r += "]";
        }
        return r + "]";
    }
    string lps() const
    {
        vector<FLOAT> v;
        for (size_t p = 0; p < P(); ++p) v.push_back(lowest_pixel_penalty(lp.get(), px(p)));
        return nums(v);
    }
    string lns() const
    {
        string r = "[";
        for (size_t p = 0; p < P(); ++p)
        {
            if (p) r += ",";
            vector<FLOAT> v;
            for (int k = 0; k < 4; ++k)
                v.push_back(has(p, k) ? lowest_neighborhood_penalty(lp.get(), edge(p, k, 0, 0)) : 0);
            r += nums(v);
        }
        return r + "]";
    }
    string avs(const ConstraintGraph* g) const
    {
        string r = "[";
        for (size_t p = 0; p < P(); ++p)
        {
            r += p ? ",[" : "[";
            for (ULONG d = 0; d < D; ++d)
            {
                if (d) r += ",";
                r += is_node_available(g, Node{px(p), d}) ? "1" : "0";
            }
            r += "]";
        }
        return r + "]";
    }
    string rel(const ConstraintGraph* g) const
    {
        string r = "[";
        for (size_t p = 0; p < P(); ++p)
        {
            r += p ? ",[" : "[";
            for (int k = 0; k < 4; ++k)
            {
                r += k ? ",[" : "[";
                for (ULONG d = 0; d < D; ++d)
                {
                    r += d ? ",[" : "[";
                    bool f = true;
                    if (has(p, k))
                        for (ULONG e = 0; e < D; ++e)
                            if (is_edge_available(g, edge(p, k, d, e)))
                            {
                                if (!f) r += ",";
                                f = false;
                                r += std::to_string(e);
                            }
                    r += "]";
                }
                r += "]";
            }
            r += "]";
        }
        return r + "]";
    }
    // relation between nodes when every node is available
    string fullRel(const ConstraintGraph* g) const
    {
        ConstraintGraph full{*g};
        for (size_t p = 0; p < P(); ++p)
            for (ULONG d = 0; d < D; ++d)
                if (hasNode(p, d)) make_node_available(&full, Node{px(p), d});
        return rel(&full);
    }
    bool lookups() const
    {
        for (size_t p = 0; p < P(); ++p)
            for (int k = 0; k < 4; ++k)
            {
                if (!has(p, k)) continue;
                FLOAT a = lowest_neighborhood_penalty(lp.get(), edge(p, k, 0, 0));
                if (a != lowest_neighborhood_penalty_fast(lp.get(), px(p), px(nb(p, k)))) return false;
            }
        return true;
    }
    bool calculations() const
    {
        for (size_t p = 0; p < P(); ++p)
        {
            if (calculate_lowest_pixel_penalty(dg.get(), px(p)) != lowest_pixel_penalty(lp.get(), px(p)))
                return false;
            for (int k = 0; k < 4; ++k)
            {
                if (!has(p, k)) continue;
                FLOAT a = lowest_neighborhood_penalty(lp.get(), edge(p, k, 0, 0));
                if (a != calculate_lowest_neighborhood_penalty(dg.get(), px(p), px(nb(p, k)))) return false;
                if (a != calculate_lowest_neighborhood_penalty_slow(dg.get(), px(p), k)) return false;
                if (a != calculate_lowest_neighborhood_penalty_fast(dg.get(), edge(p, k, 0, 0))) return false;
            }
        }
        return true;
    }
    Js ev(const char* op) const
    {
        Js j;
        j.i("sid", sid).s("op", op);
        return j;
    }
};

static Image image(ULONG w, ULONG h, ULONG m, const vector<long>& d)
{
    Image r{w, h, m, ULONG_ARRAY(d.size())};
    for (size_t k = 0; k < d.size(); ++k) r.data[k] = ul(d[k]);
    return r;
}

static vector<long> readList(std::istream& in)
{
    size_t n = 0;
    in >> n;
    vector<long> v(n);
    for (auto& x : v) in >> x;
    return v;
}

static bool sameImage(const Image& a, ULONG w, ULONG h, ULONG m, const vector<long>& d)
{
    if (a.width != w || a.height != h || a.max_value != m || a.data.size() != d.size()) return false;
    for (size_t k = 0; k < d.size(); ++k) if (a.data[k] != ul(d[k])) return false;
    return true;
}

static const char* excName(const std::exception& e)
{
    if (dynamic_cast<const std::invalid_argument*>(&e)) return "invalid_argument";
    if (dynamic_cast<const std::out_of_range*>(&e)) return "out_of_range";
    if (dynamic_cast<const std::logic_error*>(&e)) return "logic_error";
    if (dynamic_cast<const std::bad_alloc*>(&e)) return "bad_alloc";
    return "other";
}

static double weight(const string& t) { return std::strtod(t.c_str(), nullptr); }
static const char* weightClass(double v)
{
    if (std::isnan(v)) return "nan";
    if (std::isinf(v)) return v > 0 ? "inf" : "neginf";
    return v < 0 ? "neg" : v == 0 ? "zero" : v < std::numeric_limits<double>::epsilon() ? "tiny" : "pos";
}

static void opExist(Session& t, std::istream& in)
{
    long w, h, D, limit;
    unsigned long seed;
    in >> w >> h >> D >> limit >> seed;
    vector<long> z(w * h, 0);
    DisparityGraph g{image(w, h, 1, z), image(w, h, 1, z), ul(D), 1, 1};
    vector<vector<long>> nodes, nbs, nbf, edges;
    for (long x = -1; x <= w; ++x)
        for (long y = -1; y <= h; ++y)
        {
            for (long d = 0; d <= D + 1; ++d)
                nodes.push_back({x, y, d, node_exists(&g, Node{{ul(x), ul(y)}, ul(d)})});
            if (x >= 0 && y >= 0)
                for (long k = 0; k <= 5; ++k)
                    nbf.push_back({x, y, k, neighborhood_exists_fast(&g, {ul(x), ul(y)}, ul(k))});
            for (long u = x - 2; u <= x + 2; ++u)
                for (long v = y - 2; v <= y + 2; ++v)
                {
                    if (u < -1 || v < -1 || u > w || v > h) continue;
                    if (x >= 0 && y >= 0)
                        nbs.push_back({x, y, u, v,
                            neighborhood_exists(&g, {ul(x), ul(y)}, {ul(u), ul(v)})});
                    for (long d = 0; d <= D; ++d)
                        for (long e = 0; e <= D; ++e)
                        {
                            bool adj = std::labs(u - x) + std::labs(v - y) == 1;
                            seed = seed * 6364136223846793005UL + 1442695040888963407UL;
                            if (!adj && (seed >> 33) % 16 != 0) continue;
                            edges.push_back({x, y, d, u, v, e, edge_exists(&g,
                                Edge{{{ul(x), ul(y)}, ul(d)}, {{ul(u), ul(v)}, ul(e)}})});
                        }
                }
        }
    // keep the log small: a seeded sample of the edges
    while (static_cast<long>(edges.size()) > limit)
    {
        seed = seed * 6364136223846793005UL + 1442695040888963407UL;
        size_t k = (seed >> 33) % edges.size();
        edges[k] = edges.back();
        edges.pop_back();
    }
    t.ev("exist").i("w", w).i("h", h).i("D", D).raw("nodes", rows(nodes)).raw("nbs", rows(nbs))
        .raw("nbf", rows(nbf)).raw("edges", rows(edges)).emit();
}

// Existence of some nodes, neighborhoods and edges of a large problem.
static void opProbe(Session& t, std::istream& in)
{
    long w, h, D, n;
    unsigned long seed;
    in >> w >> h >> D >> n >> seed;
    vector<long> z(w * h, 0);
    DisparityGraph g{image(w, h, 1, z), image(w, h, 1, z), ul(D), 1, 1};
    auto pick = [&](long limit) {
        seed = seed * 6364136223846793005UL + 1442695040888963407UL;
        long a = (seed >> 33) % 10;
        seed = seed * 6364136223846793005UL + 1442695040888963407UL;
        long b = (seed >> 33);
        if (a < 3) return std::max(0L, limit - 2 + b % 4);
        if (a < 5) return b % 3;
        if (a < 6) return limit + b % (3 * limit + 70000);
        return b % limit;
    };
    auto near = [&](long v) {
        seed = seed * 6364136223846793005UL + 1442695040888963407UL;
        return v + static_cast<long>((seed >> 33) % 3) - 1;
    };
    vector<vector<long>> nodes, nbs, nbf, edges;
    while (n--)
    {
        long x = pick(w), y = pick(h), d = pick(D), k = near(2) + near(1);
        if (x > w && n % 4) x = w;
        if (y > h && n % 4) y = h;
        long u = near(x), v = u == x || n % 5 == 0 ? near(y) : y, e = n % 3 ? near(near(d)) : pick(D);
        if (u < 0 || v < 0 || k < 0 || e < 0) continue;
        nodes.push_back({x, y, d, node_exists(&g, Node{{ul(x), ul(y)}, ul(d)})});
        nbf.push_back({x, y, k, neighborhood_exists_fast(&g, {ul(x), ul(y)}, ul(k))});
        nbs.push_back({x, y, u, v, neighborhood_exists(&g, {ul(x), ul(y)}, {ul(u), ul(v)})});
        edges.push_back({x, y, d, u, v, e, edge_exists(&g,
            Edge{{{ul(x), ul(y)}, ul(d)}, {{ul(u), ul(v)}, ul(e)}})});
    }
    t.ev("exist").i("w", w).i("h", h).i("D", D).raw("nodes", rows(nodes)).raw("nbs", rows(nbs))
        .raw("nbf", rows(nbf)).raw("edges", rows(edges)).emit();
}

// Sizes too large for lists of addresses: how many different ones there are,
// the least and the greatest, and the number of variants that disagree.
static void opBulk(Session& t, std::istream& in)
{
    long w, h, D;
    in >> w >> h >> D;
    DisparityGraph g{image(w, h, 1, vector<long>(w * h, 0)), image(w, h, 1, vector<long>(w * h, 0)), ul(D), 1, 1};
    struct Seen
    {
        vector<bool> at;
        long n = 0, least = 1000000000, most = -1, odd = 0;
        void operator()(ULONG a)
        {
            long v = small(a);
            least = std::min(least, v);
            most = std::max(most, v);
            if (v < 0 || ul(v) >= at.size() || at[v]) return;
            at[v] = true;
            ++n;
        }
        string str() const { return ints({n, least, most, odd}); }
    } pix, node, nbh, rep;
    Session q;
    q.w = w; q.h = h; q.D = D;
    pix.at.resize(q.P());
    node.at.resize(q.P() * D);
    nbh.at.resize(4 * q.P());
    rep.at.resize(4 * q.P() * D);
    for (size_t p = 0; p < q.P(); ++p)
    {
        Pixel a = q.px(p);
        pix(pixel_index(&g.right, a));
        for (long d = 0; d < D; ++d) node(node_index(&g, Node{a, ul(d)}));
        for (int k = 0; k < 4; ++k)
        {
            ULONG v = neighborhood_index_fast(&g, a, k);
            nbh(v);
            if (q.has(p, k))
                nbh.odd += (v != neighborhood_index(&g, a, q.px(q.nb(p, k))))
                    + (v != neighborhood_index_slow(&g, q.edge(p, k, 0, 0)));
            for (long d = 0; d < D; ++d)
            {
                v = reparametrization_index_fast(&g, Node{a, ul(d)}, k);
                rep(v);
                if (q.has(p, k))
                    rep.odd += (v != reparametrization_index(&g, Node{a, ul(d)}, q.px(q.nb(p, k))))
                        + (v != reparametrization_index_slow(&g, q.edge(p, k, d, 0)));
            }
        }
    }
    t.ev("bulk").i("w", w).i("h", h).i("D", D).raw("pix", pix.str()).raw("node", node.str())
        .raw("nbh", nbh.str()).raw("rep", rep.str())
        .i("npix", g.right.data.size()).i("nrep", g.reparametrization.size()).emit();
}

static void opIndex(Session& t, std::istream& in)
{
    long w, h, D;
    in >> w >> h >> D;
    vector<long> data;
    for (long k = 0; k < w * h; ++k) data.push_back((k * 7 + 3) % 1000);
    DisparityGraph g{image(w, h, 1000, data), image(w, h, 1000, data), ul(D), 1, 1};
    LowestPenalties lp{&g};
    ConstraintGraph cg{&g, &lp, 0};
    Session q;
    q.w = w; q.h = h; q.D = D;
    vector<long> pix, node, nbh, nbhEx, nbh2, nbh3, rep, repEx, rep2, rep3, pv;
    for (size_t p = 0; p < q.P(); ++p)
    {
        Pixel a = q.px(p);
        pix.push_back(small(pixel_index(&g.right, a)));
        pv.push_back(small(pixel_value(&g.right, a)));
        for (long d = 0; d < D; ++d) node.push_back(small(node_index(&g, Node{a, ul(d)})));
        for (int k = 0; k < 4; ++k)
        {
            nbh.push_back(small(neighborhood_index_fast(&g, a, k)));
            if (q.has(p, k))
            {
                nbhEx.push_back(nbh.back());
                nbh2.push_back(small(neighborhood_index(&g, a, q.px(q.nb(p, k)))));
                nbh3.push_back(small(neighborhood_index_slow(&g, q.edge(p, k, 0, 0))));
            }
            for (long d = 0; d < D; ++d)
            {
                rep.push_back(small(reparametrization_index_fast(&g, Node{a, ul(d)}, k)));
                if (q.has(p, k))
                {
                    repEx.push_back(rep.back());
                    rep2.push_back(small(reparametrization_index(&g, Node{a, ul(d)}, q.px(q.nb(p, k)))));
                    rep3.push_back(small(reparametrization_index_slow(&g, q.edge(p, k, d, 0))));
                }
            }
        }
    }
    t.ev("index").i("w", w).i("h", h).i("D", D)
        .raw("pix", ints(pix)).i("npix", g.right.data.size())
        .raw("node", ints(node)).i("nnode", cg.nodes_availability.size())
        .raw("nbh", ints(nbh)).i("nnbh", lp.neighborhoods.size())
        .raw("nbh_ex", ints(nbhEx)).raw("nbh2", ints(nbh2)).raw("nbh3", ints(nbh3))
        .raw("rep", ints(rep)).i("nrep", g.reparametrization.size())
        .raw("rep_ex", ints(repEx)).raw("rep2", ints(rep2)).raw("rep3", ints(rep3))
        .raw("pv", ints(pv)).raw("data", ints(data)).emit();

    // One write of each kind, at a position chosen by the generator; what is
    // visible afterwards through the reading functions.
    long n;
    in >> n;
    for (long j = 0; j < n; ++j)
    {
        long p, k, d;
        in >> p >> k >> d;
        --p;
        auto readRep = [&] {
            vector<FLOAT> v;
            for (size_t a = 0; a < q.P(); ++a) for (int b = 0; b < 4; ++b) for (long e = 0; e < D; ++e)
            {
                FLOAT x = reparametrization_value_fast(&g, Node{q.px(a), ul(e)}, b);
                if (q.has(a, b))
                {
                    if (x != reparametrization_value(&g, Node{q.px(a), ul(e)}, q.px(q.nb(a, b)))
                        || x != reparametrization_value_slow(&g, q.edge(a, b, e, 0)))
                        x = 777777 + v.size();
                }
                v.push_back(x);
            }
            return v;
        };
        auto diff = [&](const vector<FLOAT>& a, const vector<FLOAT>& b) {
            vector<long> r;
            for (size_t x = 0; x < a.size(); ++x) if (a[x] != b[x]) r.push_back(x + 1);
            return r;
        };
        auto a = readRep();
        g.reparametrization.at(reparametrization_index_fast(&g, Node{q.px(p), ul(d)}, k)) += 5 + j;
        t.ev("write").s("kind", "reparametrization").i("target", (p * 4 + k) * D + d + 1)
            .raw("changed", ints(diff(a, readRep()))).emit();

        auto readNode = [&] {
            vector<FLOAT> v;
            for (size_t x = 0; x < q.P(); ++x) for (long e = 0; e < D; ++e)
                v.push_back(is_node_available(&cg, Node{q.px(x), ul(e)}));
            return v;
        };
        make_all_nodes_unavailable(&cg);
        a = readNode();
        make_node_available(&cg, Node{q.px(p), ul(d)});
        t.ev("write").s("kind", "node").i("target", p * D + d + 1)
            .raw("changed", ints(diff(a, readNode()))).emit();

        auto readPix = [&] {
            vector<FLOAT> v;
            for (size_t x = 0; x < q.P(); ++x) v.push_back(lowest_pixel_penalty(&lp, q.px(x)));
            return v;
        };
        a = readPix();
        lp.pixels.at(pixel_index(&g.right, q.px(p))) += 3;
        t.ev("write").s("kind", "pixel").i("target", p + 1)
            .raw("changed", ints(diff(a, readPix()))).emit();

        if (!q.has(p, k)) continue;
        auto readNbh = [&] {
            vector<FLOAT> v;
            for (size_t x = 0; x < q.P(); ++x) for (int b = 0; b < 4; ++b)
                v.push_back(q.has(x, b) ? lowest_neighborhood_penalty(&lp, q.edge(x, b, 0, 0)) : 0);
            return v;
        };
        a = readNbh();
        lp.neighborhoods.at(neighborhood_index_fast(&g, q.px(p), k)) += 2;
        t.ev("write").s("kind", "neighborhood").i("target", p * 4 + k + 1)
            .raw("changed", ints(diff(a, readNbh()))).emit();
    }
}

static void opNumber(Session& t)
{
    vector<vector<long>> num, by;
    for (long x = 0; x < 5; ++x) for (long y = 0; y < 5; ++y)
    {
        for (long u = 0; u < 5; ++u) for (long v = 0; v < 5; ++v)
            num.push_back({x, y, u, v, small(neighbor_index({ul(x), ul(y)}, {ul(u), ul(v)}))});
        for (int k = 0; k < 4; ++k)
        {
            Pixel n = neighbor_by_index({ul(x), ul(y)}, k);
            by.push_back({x, y, k, small(n.x), small(n.y)});
        }
    }
    t.ev("number").raw("num", rows(num)).raw("by", rows(by)).emit();
}

// "construct": arbitrary arguments for the constructor of DisparityGraph
static void opConstruct(Session& t, std::istream& in)
{
    long lw, lh, lm, rw, rh, rm, D;
    in >> lw >> lh >> lm;
    auto L = readList(in);
    in >> rw >> rh >> rm;
    auto R = readList(in);
    string c, s;
    in >> D >> c >> s;
    FLOAT cv = weight(c), sv = weight(s);
    bool ok = false, holds = false;
    string exc;
    try
    {
        DisparityGraph g{image(ul(lw), ul(lh), ul(lm), L), image(ul(rw), ul(rh), ul(rm), R), ul(D), cv, sv};
        ok = true;
        holds = sameImage(g.left, ul(lw), ul(lh), ul(lm), L) && sameImage(g.right, ul(rw), ul(rh), ul(rm), R)
            && g.disparity_levels == ul(D) && g.cleanness == cv && g.smoothness == sv
            && g.reparametrization.size() == ul(lw) * ul(lh) * 4 * ul(D);
        for (FLOAT v : g.reparametrization) if (v != 0) holds = false;
    }
    catch (std::exception& e) { exc = excName(e); }
    t.ev("construct").i("lw", lw).i("lh", lh).i("lm", lm).raw("L", ints(L)).i("rw", rw).i("rh", rh)
        .i("rm", rm).raw("R", ints(R)).i("D", D).s("cc", weightClass(cv)).s("sc", weightClass(sv))
        .s("c", c).s("s", s).i("ok", ok).i("holds", holds).s("exc", exc).emit();
}

#ifdef CONC
// ---- runs under chosen schedules: every different outcome is one event
struct Rounds
{
    ConstraintGraph* g;
    long jobs;
    vector<vector<long>> assigned;      // jobs of every thread
    vector<char> changed;
    // Rounds which report a change although they end where they began: such a
    // round may repeat itself forever.
    long stalled = 0;
    static void body(void* p)
    {
        Rounds* r = static_cast<Rounds*>(p);
        for (long j : r->assigned[sched::self()])
            if (csp_solution_iteration(r->g, ul(r->jobs), ul(j))) r->changed[sched::self()] = 1;
    }
    bool solve(int threads)
    {
        for (long round = 0;; ++round)
        {
            if (round > 100000) { fprintf(stderr, "runtime error: rounds do not end\n"); _exit(9); }
            changed.assign(threads, 0);
            const BOOL_ARRAY before = g->nodes_availability;
            sched::team(threads, body, this);
            bool any = false;
            for (char c : changed) any = any || c;
            if (!any) return check_nodes_left(g);
            if (g->nodes_availability == before) ++stalled;
        }
    }
};

static void opExplore(Session& t, std::istream& in)
{
    string fn, mode;
    long h, threads, count, seed;
    in >> fn >> h >> threads >> mode >> count >> seed;
    vector<int> seq;
    for (int x; in >> x;) seq.push_back(x);
    auto* g = t.cg.at(h - 1).get();
    const BOOL_ARRAY before = g->nodes_availability;
    std::mt19937_64 r(seed * 1000003 + 7);
    Rounds rounds;
    rounds.g = g;
    rounds.jobs = 1 + r() % (t.h + 2);
    rounds.assigned.resize(threads);
    for (long j = 0; j < rounds.jobs; ++j) rounds.assigned[r() % threads].push_back(j);
    auto result = [&](bool base) {
        g->nodes_availability = before;
        int ret = 0;
        string v = "0";
        rounds.stalled = 0;
        if (fn == "solve" || (base && fn == "rounds")) ret = solve_csp(g);
        else if (fn == "rounds") ret = rounds.solve(threads);
        else if (fn == "label") ret = find_labeling(g) == g;
        else v = t.num(calculate_minimal_consistent_threshold(t.lp.get(), t.dg.get(), t.cands));
        return "{\"ret\":" + std::to_string(ret) + ",\"t\":" + v + ",\"stalled\":" + std::to_string(rounds.stalled > 0) + ",\"av\":" + t.avs(g) + "}";
    };
    sched::forget();
    sched::start(sched::Plan());
    string base = result(true);
    sched::stop();
    std::map<string, std::pair<long, string>> outcomes;
    long runs = 0, most = 0, total = 0;
    auto once = [&](const sched::Plan& p) {
        sched::start(p);
        string x = result(false);
        long n = sched::stop();
        ++runs;
        most = std::max(most, n);
        total += n;
        auto& o = outcomes[x];
        if (o.first++ == 0) o.second = sched::describe(p);
        return n;
    };
    sched::Plan p;
    p.threads = static_cast<int>(threads);
    p.mode = sched::PREEMPT;
    long len = 1;
    for (int f = 0; f < threads; ++f) { p.first = f; len = std::max(len, once(p)); }
    if (mode == "one")      // every single preemption, or a sample
    {
        long all = len * threads * (threads - 1);
        for (long k = 0; k < std::min(all, count); ++k)
        {
            long x = all <= count ? k : static_cast<long>(r() % all);
            p.first = static_cast<int>(x % threads);
            x /= threads;
            p.points = {{1 + x / (threads - 1), static_cast<int>((p.first + 1 + x % (threads - 1)) % threads)}};
            once(p);
        }
    }
    else if (mode == "few")
    {
        for (long k = 0; k < count; ++k)
        {
            p.first = static_cast<int>(r() % threads);
            p.points.clear();
            vector<long> at;
            for (int j = 2 + static_cast<int>(r() % 3); j > 0; --j) at.push_back(1 + r() % len);
            // often close together: the window between a read and a write
            if (r() % 2) for (size_t j = 1; j < at.size(); ++j) at[j] = at[0] + static_cast<long>(r() % 6);
            std::sort(at.begin(), at.end());
            for (long a : at) p.points.push_back({a, static_cast<int>(r() % threads)});
            once(p);
        }
    }
    else
    {
        for (long k = 0; k < count; ++k)
        {
            p.seed = seed * 100003 + k;
            p.first = static_cast<int>(r() % threads);
            if (mode == "random")
            {
                const double ps[] = {0.01, 0.05, 0.2, 0.5, 1};
                p.mode = sched::RANDOM;
                p.probability = ps[r() % 5];
            }
            else if (mode == "priority")
            {
                p.mode = sched::PRIORITY;
                p.points.clear();
                vector<long> at;
                for (int j = static_cast<int>(r() % 5); j > 0; --j) at.push_back(1 + r() % len);
                std::sort(at.begin(), at.end());
                for (long a : at) p.points.push_back({a, 0});
            }
            else if (mode == "rotate") p.mode = sched::ROTATE;
            else
            {
                p.mode = sched::SEQUENCE;
                p.sequence = seq;
            }
            once(p);
        }
    }
    g->nodes_availability = before;
    for (auto& o : outcomes)
        t.ev("conc").i("h", h).s("fn", fn).i("threads", threads).s("mode", mode).i("runs", runs).i("points", total)
            .i("seen", o.second.first).s("plan", o.second.second).raw("base", base).raw("result", o.first).emit();
}
#endif

static bool run(Session& t, const string& op, std::istream& in)
{
    auto handle = [&]() -> ConstraintGraph* { long h; in >> h; return t.cg.at(h - 1).get(); };
    if (op == "exist") { opExist(t, in); return true; }
    if (op == "probe") { opProbe(t, in); return true; }
    if (op == "bulk") { opBulk(t, in); return true; }
    if (op == "index") { opIndex(t, in); return true; }
    if (op == "number") { opNumber(t); return true; }
    if (op == "construct") { opConstruct(t, in); return true; }
    if (op == "valid")
    {
        long w, h, m;
        in >> w >> h >> m;
        auto d = readList(in);
        Image g = image(ul(w), ul(h), ul(m), d);
        t.ev("valid").i("w", w).i("h", h).i("m", m).raw("data", ints(d)).i("ret", image_valid(&g)).emit();
        return true;
    }
    if (op == "graph")      // w h D m den c s L R
    {
        in >> t.w >> t.h >> t.D >> t.m >> t.den >> t.c >> t.s;
        t.L = readList(in);
        t.R = readList(in);
        t.phi.assign(t.P(), vector<vector<FLOAT>>(4, vector<FLOAT>(t.D, 0)));
        t.ev("begin").i("w", t.w).i("h", t.h).i("D", t.D).emit();
        t.cg.clear();
        t.olp.clear();
        t.lp.reset();
        t.dg.reset();
        t.dg = make<DisparityGraph>(image(t.w, t.h, t.m, t.L), image(t.w, t.h, t.m, t.R), t.D,
            static_cast<FLOAT>(t.c) / t.den, static_cast<FLOAT>(t.s) / t.den);
        return true;
    }
    if (op == "phi")        // n times: p k d value
    {
        size_t n;
        in >> n;
        while (n--)
        {
            long p, k, d, v;
            in >> p >> k >> d >> v;
            FLOAT x = static_cast<FLOAT>(v) / t.den;
            t.phi[p - 1][k][d] = x;
            t.dg->reparametrization.at(
                reparametrization_index_fast(t.dg.get(), Node{t.px(p - 1), ul(d)}, ul(k))) = x;
        }
        return true;
    }
    if (op == "pen") { t.ev("pen").raw("np", t.np()).raw("ep", t.ep()).emit(); return true; }
    if (op == "penl") { t.ev("pen").raw("np", t.np()).raw("ep", "[]").emit(); return true; }
    if (op == "spots")      // n times: p k d e (nodes and edges of problems too large for whole tables)
    {
        size_t n;
        in >> n;
        string a, b, f;
        while (n--)
        {
            size_t p;
            long k, d, e;
            in >> p >> k >> d >> e;
            --p;
            if (t.hasNode(p, d))
                a += (a.empty() ? "[" : ",[") + std::to_string(p + 1) + "," + std::to_string(d) + ","
                    + t.num(node_penalty(t.dg.get(), Node{t.px(p), ul(d)})) + "]";
            if (t.has(p, k) && t.hasEdge(p, k, d, e))
                b += (b.empty() ? "[" : ",[") + std::to_string(p + 1) + "," + std::to_string(k) + ","
                    + std::to_string(d) + "," + std::to_string(e) + ","
                    + t.num(edge_penalty(t.dg.get(), t.edge(p, k, d, e))) + "]";
        }
        for (size_t p = 0; p < t.P(); ++p)
            for (int k = 0; k < 4; ++k)
                for (ULONG d = 0; d < t.D; ++d)
                    if (t.phi[p][k][d] != 0)
                        f += (f.empty() ? "[" : ",[") + std::to_string(p + 1) + "," + std::to_string(k) + ","
                            + std::to_string(d) + "," + t.num(t.phi[p][k][d]) + "]";
        t.ev("spots").raw("L", ints(t.L)).raw("R", ints(t.R)).i("c", t.c).i("s", t.s)
            .raw("phi", "[" + f + "]").raw("nodes", "[" + a + "]").raw("edges", "[" + b + "]").emit();
        return true;
    }
    if (op == "formula")
    {
        string f = "[";
        for (size_t p = 0; p < t.P(); ++p)
        {
            f += p ? ",[" : "[";
            for (int k = 0; k < 4; ++k) { if (k) f += ","; f += t.nums(t.phi[p][k]); }
            f += "]";
        }
        f += "]";
        t.ev("formula").raw("L", ints(t.L)).raw("R", ints(t.R)).i("c", t.c).i("s", t.s)
            .raw("phi", f).raw("np", t.np()).raw("ep", t.ep()).emit();
        return true;
    }
    if (op == "energy" || op == "bound")
    {
        size_t n;
        in >> n;
        vector<vector<long>> labs;
        while (n--) labs.push_back(readList(in));
        Js j = t.ev(op.c_str());
        j.raw("labs", rows(labs));
        if (op == "energy") j.raw("np", t.np()).raw("ep", t.ep());
        j.emit();
        return true;
    }
    if (op == "low")        // chk
    {
        long chk;
        in >> chk;
        if (t.lp) t.olp.push_back(std::move(t.lp));
        t.lp = make<LowestPenalties>(t.dg.get());
        t.ev("low").i("chk", chk).raw("lp", t.lps()).raw("ln", t.lns())
            .i("variants", t.lookups() && t.calculations()).emit();
        return true;
    }
    if (op == "lowl")       // without an event, for large problems
    {
        if (t.lp) t.olp.push_back(std::move(t.lp));
        t.lp = make<LowestPenalties>(t.dg.get());
        return true;
    }
    if (op == "relow")      // look again at the stored values after a change
    {
        t.ev("relow").raw("lp", t.lps()).raw("ln", t.lns()).i("variants", t.lookups()).emit();
        return true;
    }
    if (op == "cands")      // log?
    {
        long log;
        in >> log;
        t.cands = fetch_available_penalties(t.lp.get());
        if (log) t.ev("cands").raw("list", t.nums(t.cands)).emit();
        return true;
    }
    if (op == "pixc")
    {
        long p;
        in >> p;
        auto v = fetch_pixel_available_penalties(
            t.dg.get(), t.px(p - 1), lowest_pixel_penalty(t.lp.get(), t.px(p - 1)));
        t.ev("pixc").i("p", p).raw("list", t.nums(v)).emit();
        return true;
    }
    if (op == "edgec")
    {
        long p, k;
        in >> p >> k;
        Edge e = t.edge(p - 1, k, 0, 0);
        auto v = fetch_edge_available_penalties(t.dg.get(), e, lowest_neighborhood_penalty(t.lp.get(), e));
        t.ev("edgec").i("p", p).i("k", k).raw("list", t.nums(v)).emit();
        return true;
    }
    if (op == "thr")        // chk exact
    {
        long chk, exact;
        in >> chk >> exact;
        t.thr = calculate_minimal_consistent_threshold(t.lp.get(), t.dg.get(), t.cands);
        t.ev("thr").i("chk", chk).i("exact", exact).raw("t", t.num(t.thr)).emit();
        return true;
    }
    if (op == "thrn")       // n k: the threshold found before as number k of n candidates
    {
        long n, k;
        in >> n >> k;
        vector<FLOAT> v;
        for (long j = 0; j < n; ++j) v.push_back(t.thr + static_cast<FLOAT>(j - k) / t.den);
        FLOAT x = calculate_minimal_consistent_threshold(t.lp.get(), t.dg.get(), v);
        t.ev("thrl").raw("list", t.nums(v)).raw("t", t.num(x)).emit();
        return true;
    }
    if (op == "thrl")       // step lo hi n: every step-th candidate (0: none) and n values from lo to hi
    {
        long step, lo, hi, n;
        in >> step >> lo >> hi >> n;
        vector<FLOAT> v;
        if (step > 0) for (size_t k = 0; k < t.cands.size(); k += step) v.push_back(t.cands[k]);
        for (long k = 0; k < n; ++k) v.push_back(static_cast<FLOAT>(lo + (hi - lo) * k / n) / t.den);
        std::sort(v.begin(), v.end());
        v.erase(std::unique(v.begin(), v.end()), v.end());
        FLOAT x = calculate_minimal_consistent_threshold(t.lp.get(), t.dg.get(), v);
        t.ev("thrl").raw("list", t.nums(v)).raw("t", t.num(x)).emit();
        return true;
    }
    if (op == "cg")         // h chk kind value
    {
        long h, chk, v;
        string kind;
        in >> h >> chk >> kind >> v;
        FLOAT x = 0;
        if (kind == "thr") x = t.thr;
        else if (kind == "abs") x = static_cast<FLOAT>(v) / t.den;
        else        // per mille of the list of candidates, optionally shifted
        {
            size_t k = t.cands.empty() ? 0 : (t.cands.size() - 1) * v / 1000;
            x = t.cands.empty() ? 0 : t.cands[k];
            if (kind == "below") x -= 1.0 / t.den;
            if (kind == "above") x += 1.0 / t.den;
        }
        auto g = make<ConstraintGraph>(t.dg.get(), t.lp.get(), x);
        if (ul(h) > t.cg.size()) t.cg.resize(h);
        t.cg[h - 1] = std::move(g);
        auto* c = t.cg[h - 1].get();
        t.ev("cg").i("h", h).i("chk", chk).raw("t", t.num(x)).raw("av", t.avs(c)).raw("rel", t.fullRel(c)).emit();
        return true;
    }
    if (op == "cgl")        // h value: without the relation, for large problems
    {
        long h, v;
        in >> h >> v;
        auto g = make<ConstraintGraph>(t.dg.get(), t.lp.get(), static_cast<FLOAT>(v) / t.den);
        if (ul(h) > t.cg.size()) t.cg.resize(h);
        t.cg[h - 1] = std::move(g);
        auto* c = t.cg[h - 1].get();
        t.ev("cgl").i("h", h).raw("t", t.num(static_cast<FLOAT>(v) / t.den)).raw("av", t.avs(c)).emit();
        return true;
    }
    if (op == "copy")       // h from
    {
        long h, from;
        in >> h >> from;
        auto g = make<ConstraintGraph>(*t.cg.at(from - 1));
        if (ul(h) > t.cg.size()) t.cg.resize(h);
        t.cg[h - 1] = std::move(g);
        t.ev("copy").i("h", h).i("from", from).raw("av", t.avs(t.cg[h - 1].get())).emit();
        return true;
    }
    long h;
    if (op == "av")         // h n (p d)*: exactly these nodes
    {
        in >> h;
        auto* g = t.cg.at(h - 1).get();
        size_t n;
        in >> n;
        for (size_t p = 0; p < t.P(); ++p)
            for (ULONG d = 0; d < t.D; ++d) make_node_unavailable(g, Node{t.px(p), d});
        while (n--)
        {
            long p, d;
            in >> p >> d;
            make_node_available(g, Node{t.px(p - 1), ul(d)});
        }
        t.ev("av").i("h", h).i("chk", 0).raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "drop")       // h n (p d)*: take these nodes away
    {
        in >> h;
        auto* g = t.cg.at(h - 1).get();
        size_t n;
        in >> n;
        while (n--)
        {
            long p, d;
            in >> p >> d;
            make_node_unavailable(g, Node{t.px(p - 1), ul(d)});
        }
        t.ev("av").i("h", h).i("chk", 0).raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "edges")
    {
        in >> h;
        auto* g = t.cg.at(h - 1).get();
        t.ev("edges").i("h", h).raw("rel", t.rel(g)).emit();
        return true;
    }
    if (op == "set")        // h p d v
    {
        long p, d, v;
        in >> h >> p >> d >> v;
        auto* g = t.cg.at(h - 1).get();
        if (v) make_node_available(g, Node{t.px(p - 1), ul(d)});
        else make_node_unavailable(g, Node{t.px(p - 1), ul(d)});
        t.ev("set").i("h", h).i("chk", 1).i("p", p).i("d", d).i("v", v).raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "clear")
    {
        in >> h;
        auto* g = t.cg.at(h - 1).get();
        make_all_nodes_unavailable(g);
        t.ev("clear").i("h", h).raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "left")
    {
        in >> h;
        t.ev("left").i("h", h).i("ret", check_nodes_left(t.cg.at(h - 1).get())).emit();
        return true;
    }
    if (op == "should")
    {
        in >> h;
        auto* g = t.cg.at(h - 1).get();
        string r = "[";
        for (size_t p = 0; p < t.P(); ++p)
        {
            vector<long> v;
            for (ULONG d = 0; d < t.D; ++d)
                v.push_back(t.hasNode(p, d) && should_remove_node(g, Node{t.px(p), d}));
            if (p) r += ",";
            r += ints(v);
        }
        r += "]";
        t.ev("should").i("h", h).raw("res", r).raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "pp")         // h p
    {
        long p;
        in >> h >> p;
        auto* g = t.cg.at(h - 1).get();
        bool r = csp_process_pixel(g, t.px(p - 1));
        t.ev("pp").i("h", h).i("p", p).i("ret", r).raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "iter")       // h jobs job
    {
        long jobs, job;
        in >> h >> jobs >> job;
        auto* g = t.cg.at(h - 1).get();
        bool r = csp_solution_iteration(g, ul(jobs), ul(job));
        t.ev("iter").i("h", h).i("jobs", jobs).i("job", job).i("ret", r).raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "solve")      // h chk
    {
        long chk;
        in >> h >> chk;
        auto* g = t.cg.at(h - 1).get();
        bool r = solve_csp(g);
        t.ev("solve").i("h", h).i("chk", chk).i("ret", r).raw("av", t.avs(g)).emit();
        return true;
    }
#ifdef CONC
    if (op == "explore")    // fn h threads mode count seed
    {
        opExplore(t, in);
        return true;
    }
#endif
    if (op == "choose")     // h p
    {
        long p;
        in >> h >> p;
        auto* g = t.cg.at(h - 1).get();
        auto* r = choose_best_node(g, t.px(p - 1));
        t.ev("choose").i("h", h).i("p", p).i("ret", r == nullptr ? 0 : r == g ? 1 : 2)
            .raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "label")      // h chk exact
    {
        long chk, exact;
        in >> h >> chk >> exact;
        auto* g = t.cg.at(h - 1).get();
        auto* r = find_labeling(g);
        t.ev("label").i("h", h).i("chk", chk).i("exact", exact).i("ret", r == nullptr ? 0 : r == g ? 1 : 2)
            .raw("av", t.avs(g)).emit();
        return true;
    }
#ifdef GPU
    if (op == "device")     // h mode seed: label copies on the device and on the CPU
    {
        long seed;
        int mode;
        in >> h >> mode >> seed;
        auto* g = t.cg.at(h - 1).get();
        ConstraintGraph cpu{*g}, device{*g};
        auto result = [&](ConstraintGraph* x, ConstraintGraph* r) {
            return "{\"ret\":" + std::to_string(r == nullptr ? 0 : r == x ? 1 : 2) + ",\"av\":" + t.avs(x) + "}";
        };
        string base = result(&cpu, find_labeling(&cpu));
        fakecl_seed(static_cast<unsigned long>(seed), mode);
        string res = result(&device, find_labeling_cl(&device));
        t.ev("device").i("h", h).i("mode", mode).i("seed", seed).i("launches", fakecl_launches())
            .raw("base", base).raw("result", res).emit();
        return true;
    }
#endif
    if (op == "map")
    {
        in >> h;
        auto* g = t.cg.at(h - 1).get();
        bool ok = false, valid = false;
        string exc;
        Image m{0, 0, 0, {}};
        try { m = build_disparity_map(g); ok = true; valid = image_valid(&m); }
        catch (std::exception& e) { exc = excName(e); }
        vector<long> d;
        for (auto v : m.data) d.push_back(small(v));
        t.ev("map").i("h", h).i("ok", ok).i("valid", valid).s("exc", exc).i("width", small(m.width))
            .i("height", small(m.height)).i("max", small(m.max_value)).raw("data", ints(d))
            .raw("av", t.avs(g)).emit();
        return true;
    }
    if (op == "dump")
    {
        string a = "[";
        for (size_t k = 0; k < t.cg.size(); ++k) { if (k) a += ","; a += t.avs(t.cg[k].get()); }
        a += "]";
        bool images = sameImage(t.dg->left, t.w, t.h, t.m, t.L) && sameImage(t.dg->right, t.w, t.h, t.m, t.R)
            && t.dg->disparity_levels == t.D && t.dg->cleanness == static_cast<FLOAT>(t.c) / t.den
            && t.dg->smoothness == static_cast<FLOAT>(t.s) / t.den;
        t.ev("dump").i("images", images).raw("np", t.np()).raw("ep", t.ep()).raw("lp", t.lps())
            .raw("ln", t.lns()).raw("avs", a).emit();
        return true;
    }
    return false;
}

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    out = fopen(argv[2], "a");
    long first = atol(argv[3]);
    string line;
    std::unique_ptr<Session> t;
    bool skip = true;
    while (std::getline(in, line))
    {
        std::istringstream ls(line);
        string op;
        ls >> op;
        if (op == "begin")
        {
            t.reset(new Session);
            ls >> t->sid >> t->wide;
            skip = t->sid < first;
            if (!skip) alarm(30);
            continue;
        }
        if (skip || t->dead) continue;
        if (op == "plain")      // a session without a graph
        {
            t->ev("begin").i("w", 1).i("h", 1).i("D", 1).emit();
            continue;
        }
        try
        {
            if (!run(*t, op, ls))
            {
                fprintf(stderr, "unknown command %s\n", op.c_str());
                return 2;
            }
        }
        catch (std::exception& e)
        {
            fprintf(stderr, "%.200s\n", e.what());
            t->ev("crash").s("what", string("exception ") + excName(e) + " in " + op).emit();
            t->dead = true;
        }
    }
    t.reset();
    fclose(out);
    return 0;
}
