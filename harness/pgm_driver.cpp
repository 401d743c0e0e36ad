// Drives reading and writing of plain PGM and records every call for
// PgmTrace.tla: texts as character codes, numbers as canonical numerals.
//
//   pgm_driver COMMANDS OUT FIRST_SESSION
//
// Commands: begin SID WIDE | read USABLE N codes... | write W H MAX N data...
//           | writenone
#include <pgm_io.hpp>

#include <unistd.h>

#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <new>
#include <sstream>
#include <string>
#include <vector>

using namespace sp::image;
using namespace sp::types;
using std::string;

// Largest amount of memory held at once since the last reset.
static long held_now = 0, held_peak = 0;
static bool counting = false;
static const size_t HEAD = 64;
void* operator new(size_t n)
{
    if (counting && n > (1UL << 30)) { held_peak = 2000000000L; throw std::bad_alloc(); }
    char* p = static_cast<char*>(malloc(n + HEAD));
    if (p == nullptr) { held_peak = 2000000000L; throw std::bad_alloc(); }
    *reinterpret_cast<size_t*>(p) = n;
    held_now += n;
    if (counting && held_now > held_peak) held_peak = held_now;
    return p + HEAD;
}
void operator delete(void* q) noexcept
{
    if (q == nullptr) return;
    char* p = static_cast<char*>(q) - HEAD;
    held_now -= *reinterpret_cast<size_t*>(p);
    free(p);
}
void operator delete(void* q, size_t) noexcept { operator delete(q); }

static FILE* out;

static string codes(const string& s)
{
    string r = "[";
    for (size_t k = 0; k < s.size(); ++k)
    {
        if (k) r += ",";
        r += std::to_string(static_cast<int>(static_cast<unsigned char>(s[k])));
    }
    return r + "]";
}
static string numeral(ULONG v) { return codes(std::to_string(v)); }
static string image(const Image* g)
{
    if (g == nullptr) return "\"w\":[],\"h\":[],\"max\":[],\"data\":[]";
    string r = "\"w\":" + numeral(g->width) + ",\"h\":" + numeral(g->height) + ",\"max\":" + numeral(g->max_value)
        + ",\"data\":[";
    for (size_t k = 0; k < g->data.size(); ++k)
    {
        if (k) r += ",";
        r += numeral(g->data[k]);
    }
    return r + "]";
}
static ULONG number(std::istream& in)
{
    string t;
    in >> t;
    return std::strtoul(t.c_str(), nullptr, 10);
}

int main(int argc, char** argv)
{
    if (argc < 4) return 2;
    std::ifstream in(argv[1]);
    out = fopen(argv[2], "a");
    long first = atol(argv[3]), sid = 0;
    string line;
    PGM_IO reader;
    bool skip = true;
    while (std::getline(in, line))
    {
        std::istringstream ls(line);
        string op;
        ls >> op;
        if (op == "begin")
        {
            ls >> sid;
            skip = sid < first;
            if (skip) continue;
            alarm(20);
            reader = PGM_IO();
            fprintf(out, "{\"sid\":%ld,\"op\":\"begin\"}\n", sid);
            fflush(out);
            continue;
        }
        if (skip) continue;
        if (op == "read")
        {
            long usable;
            size_t n;
            ls >> usable >> n;
            string text(n, ' ');
            for (auto& ch : text) { int v; ls >> v; ch = static_cast<char>(v); }
            std::istringstream st(text);
            if (!usable) st.setstate(std::ios_base::failbit);
            bool threw = false;
            held_peak = 0;
            long base = held_now;
            counting = true;
            try { st >> reader; }
            catch (...) { threw = true; }
            counting = false;
            long peak = held_peak == 0 ? 0 : held_peak >= 2000000000L ? 2000000000L : held_peak - base;
            auto g = reader.get_image();
            fprintf(out, "{\"sid\":%ld,\"op\":\"read\",\"usable\":%ld,\"text\":%s,\"fail\":%d,\"threw\":%d,"
                "\"peak\":%ld,%s}\n", sid, usable, codes(text).c_str(), st.fail() ? 1 : 0, threw ? 1 : 0, peak,
                image(g.get()).c_str());
            fflush(out);
            continue;
        }
        if (op == "write" || op == "writenone")
        {
            std::shared_ptr<Image> g;
            if (op == "write")
            {
                g = std::make_shared<Image>(Image{0, 0, 0, {}});
                g->width = number(ls);
                g->height = number(ls);
                g->max_value = number(ls);
                size_t n;
                ls >> n;
                g->data = ULONG_ARRAY(n);
                for (size_t k = 0; k < n; ++k) g->data[k] = number(ls);
            }
            std::ostringstream st;
            st << PGM_IO(g);
            fprintf(out, "{\"sid\":%ld,\"op\":\"%s\",\"text\":%s,\"fail\":%d,%s}\n", sid, op.c_str(),
                codes(st.str()).c_str(), st.fail() ? 1 : 0, image(g.get()).c_str());
            fflush(out);
            continue;
        }
        fprintf(stderr, "unknown command %s\n", op.c_str());
        return 2;
    }
    fclose(out);
    return 0;
}
