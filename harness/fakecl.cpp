// An OpenCL device for hosts without one: the part of the OpenCL 1.2 API that
// Boost.Compute needs. Kernels are compiled by clang for the host, with a
// scheduling point before every access to memory, and work items are fibers of
// sched.cpp, divided into work groups. Whatever the standard leaves open (when
// queued commands run, the size of work groups, the order of work items) is
// chosen by the random generator started by fakecl_seed.
#define CL_TARGET_OPENCL_VERSION 120
#define CL_USE_DEPRECATED_OPENCL_1_1_APIS
#include <CL/cl.h>

#include "sched.hpp"

#include <dlfcn.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <fstream>
#include <functional>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using std::string;
using std::vector;

#define API __attribute__((visibility("default")))
[[noreturn]] static void bad(const string& why)
{
    fprintf(stderr, "runtime error: OpenCL: %s\n", why.c_str());
    fflush(stderr);
    _exit(9);
}

struct Object { int refs = 1; virtual ~Object() {} };
struct _cl_platform_id : Object {};
struct _cl_device_id : Object {};
struct _cl_context : Object {};
struct _cl_command_queue : Object {};
struct _cl_event : Object { bool done = false; };
struct _cl_program : Object
{
    string source, log, file;
    void* lib = nullptr;
    bool local = false;                       // uses memory shared by a group
    std::map<string, vector<string>> kernels; // types of the arguments
    cl_build_status status = CL_BUILD_NONE;
};
struct _cl_kernel : Object
{
    cl_program program;
    string name;
    void* fn;
    vector<string> types;
    vector<vector<char>> args;
};
struct _cl_mem : Object
{
    char* p = nullptr;
    size_t n = 0, region = 0;
    char* start = nullptr;
    bool writable = true;
};

static _cl_platform_id platform;
static _cl_device_id device;
static _cl_context context;
static std::set<cl_mem> buffers;
static std::set<Object*> live;
static std::deque<std::function<void()>> pending;
static unsigned long fromEnv(const char* name, unsigned long otherwise)
{
    const char* s = getenv(name);
    return s ? strtoul(s, nullptr, 10) : otherwise;
}
static std::mt19937_64 rng(fromEnv("FAKECL_SEED", 1));
static int mode = static_cast<int>(fromEnv("FAKECL_MODE", 0));     // how groups and items are ordered
static long launches = 0;

// ---- running kernels
struct Group { size_t size = 0, waiting = 0, done = 0; long phase = 0; };
// A range of items; the ones of a group have consecutive numbers.
struct Range
{
    cl_uint dim = 1;
    size_t offset[3] = {0, 0, 0}, global[3] = {1, 1, 1}, local[3] = {1, 1, 1};
    bool split = false;        // false: the device chooses how to divide the range into groups
    size_t items() const { return global[0] * global[1] * global[2]; }
    size_t size() const { return local[0] * local[1] * local[2]; }
    size_t id(int what, unsigned d, size_t k) const
    {
        if (d >= 3) return what == 0 || what == 1 || what == 2 || what == 6 ? 0 : 1;
        size_t i = k % size(), g = k / size();
        for (unsigned e = 0; e < d; ++e)
        {
            i /= local[e];
            g /= global[e] / local[e];
        }
        i %= local[d];
        g %= global[d] / local[d];
        switch (what)
        {
            case 0: return offset[d] + g * local[d] + i;
            case 1: return i;
            case 2: return g;
            case 3: return global[d];
            case 4: return local[d];
            case 5: return global[d] / local[d];
            case 6: return offset[d];
            default: return dim;
        }
    }
};
struct Launch
{
    Range range;
    void* fn;
    unsigned long long ints[24];
    float floats[8];
    size_t n, local;
    vector<Group> groups;
    vector<size_t> order;      // item of every fiber
    size_t running = 0;        // sequential groups: the one that runs
    bool sequential = false;
    vector<size_t> rank;       // sequential groups: turn of each
};
static Launch* now = nullptr;
static bool within(uintptr_t a, bool write)
{
    for (cl_mem m : buffers)
    {
        uintptr_t s = reinterpret_cast<uintptr_t>(m->start), p = reinterpret_cast<uintptr_t>(m->p);
        if (a >= s && a < s + m->region) return a >= p && a < p + m->n && (!write || m->writable);
    }
    return true;               // constants of the program; others crash
}
static size_t item() { return now->order[sched::self()]; }
static void body(void*)
{
    Launch* l = now;
    size_t g = item() / l->local;
    if (l->sequential) sched::pause([l, g] { return l->running == l->rank[g]; });
    typedef unsigned long long U;
    typedef void (*F)(U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U,
                      float, float, float, float, float, float, float, float);
    const U* i = l->ints;
    const float* f = l->floats;
    reinterpret_cast<F>(l->fn)(i[0], i[1], i[2], i[3], i[4], i[5], i[6], i[7], i[8], i[9], i[10], i[11], i[12],
        i[13], i[14], i[15], i[16], i[17], i[18], i[19], i[20], i[21], i[22], i[23],
        f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]);
    Group& x = l->groups[g];
    ++x.done;
    if (x.waiting && x.waiting + x.done == x.size) bad("a work item ends while others of its group wait at a barrier");
    if (x.done == x.size) ++l->running;
}
extern "C"
{
API void fakecl_touch(unsigned long a)
{
    if (!within(a, true)) bad("access out of bounds");
    sched::step();
}
API void fakecl_barrier()
{
    Launch* l = now;
    Group& x = l->groups[item() / l->local];
    if (++x.waiting == x.size)
    {
        x.waiting = 0;
        ++x.phase;
        sched::step();
        return;
    }
    if (x.waiting + x.done == x.size) bad("work items of a group meet at a barrier others never reach");
    long phase = x.phase;
    sched::pause([&x, phase] { return x.phase != phase; });
}
API unsigned long fakecl_id(int what, unsigned dim)
{
    return now->range.id(what, dim, item());
}
// mode: 0 items run one after another, 1 interleaved at random, 2 mostly in order, 3 in turns
API void fakecl_seed(unsigned long seed, int how)
{
    rng.seed(seed);
    mode = how;
    launches = 0;
}
API long fakecl_launches() { return launches; }
}
static void launch(cl_kernel kernel, const vector<vector<char>>& args, Range range)
{
    Launch l;
    l.fn = kernel->fn;
    memset(l.ints, 0, sizeof l.ints);
    memset(l.floats, 0, sizeof l.floats);
    size_t a = 0, b = 0;
    for (size_t k = 0; k < args.size(); ++k)
    {
        if (kernel->types[k] == "float")
        {
            if (b == 8) bad("too many arguments");
            memcpy(&l.floats[b++], args[k].data(), args[k].size());
        }
        else
        {
            if (a == 24) bad("too many arguments");
            memcpy(&l.ints[a++], args[k].data(), args[k].size());
        }
    }
    ++launches;
    if (!range.split)
    {
        size_t room = 1024;
        for (unsigned d = 0; d < 3; ++d)
        {
            vector<size_t> sizes;
            for (size_t k = 1; k <= range.global[d] && k <= room; ++k) if (range.global[d] % k == 0) sizes.push_back(k);
            range.local[d] = sizes[rng() % sizes.size()];
            room /= range.local[d];
        }
    }
    const size_t n = range.items();
    l.range = range;
    l.n = n;
    l.local = range.size();
    size_t groups = n / l.local;
    l.groups.resize(groups);
    for (auto& g : l.groups) g.size = l.local;
    l.sequential = kernel->program->local || rng() % 3 == 0;
    for (size_t k = 0; k < groups; ++k) l.rank.push_back(k);
    if (rng() % 2) std::shuffle(l.rank.begin(), l.rank.end(), rng);
    for (size_t k = 0; k < n; ++k) l.order.push_back(k);
    if (mode && rng() % 2) std::shuffle(l.order.begin(), l.order.end(), rng);
    if (!mode && rng() % 2) for (size_t k = 0; k < n; ++k) l.order[k] = n - 1 - k;
    now = &l;
    sched::allowed = within;
    sched::Plan p;
    p.threads = static_cast<int>(n);
    p.seed = rng();
    const double ps[] = {0.02, 0.1, 0.5};
    p.probability = ps[rng() % 3];
    p.mode = mode == 1 ? sched::RANDOM : mode == 2 ? sched::PRIORITY : mode == 3 ? sched::ROTATE : sched::OFF;
    if (mode == 2)
        for (int k = 0; k < 3; ++k) p.points.push_back({static_cast<long>(rng() % 200) + 200 * k, 0});
    sched::start(p);
    sched::items(static_cast<int>(n), body, nullptr);
    sched::stop();
    sched::allowed = nullptr;
    now = nullptr;
}

// ---- queue
static void flush()
{
    while (!pending.empty())
    {
        auto f = pending.front();
        pending.pop_front();
        f();
    }
}
static void submit(std::function<void()> f, bool blocking, cl_event* event)
{
    pending.push_back(f);
    if (event)
    {
        *event = new _cl_event;
        cl_event e = *event;
        ++e->refs;
        pending.push_back([e] { e->done = true; if (--e->refs == 0) delete e; });
    }
    // The device may start at once or wait as long as it is allowed to.
    if (blocking || rng() % 2) flush();
}
static cl_int info(const void* from, size_t n, size_t size, void* value, size_t* ret)
{
    if (ret) *ret = n;
    if (value)
    {
        if (size < n) return CL_INVALID_VALUE;
        memcpy(value, from, n);
    }
    return CL_SUCCESS;
}
static cl_int text(const string& s, size_t size, void* value, size_t* ret)
{
    return info(s.c_str(), s.size() + 1, size, value, ret);
}
#define NUMBER(T, x) { T v_ = (x); return info(&v_, sizeof v_, size, value, ret); }
#define PARAMS size_t size, void* value, size_t* ret

extern "C"
{
API cl_int clGetPlatformIDs(cl_uint n, cl_platform_id* ids, cl_uint* count)
{
    if (count) *count = 1;
    if (ids && n) ids[0] = &platform;
    return CL_SUCCESS;
}
API cl_int clGetPlatformInfo(cl_platform_id, cl_platform_info what, PARAMS)
{
    return text(what == CL_PLATFORM_VERSION ? "OpenCL 1.2 fake" : what == CL_PLATFORM_EXTENSIONS ? "" : "fake",
                size, value, ret);
}
API cl_int clGetDeviceIDs(cl_platform_id, cl_device_type, cl_uint n, cl_device_id* ids, cl_uint* count)
{
    if (count) *count = 1;
    if (ids && n) ids[0] = &device;
    return CL_SUCCESS;
}
API cl_int clGetDeviceInfo(cl_device_id, cl_device_info what, PARAMS)
{
    switch (what)
    {
        case CL_DEVICE_TYPE: NUMBER(cl_device_type, CL_DEVICE_TYPE_GPU)
        case CL_DEVICE_NAME: case CL_DEVICE_VENDOR: return text("fake", size, value, ret);
        case CL_DEVICE_VERSION: return text("OpenCL 1.2 fake", size, value, ret);
        case CL_DEVICE_OPENCL_C_VERSION: return text("OpenCL C 1.2 fake", size, value, ret);
        case CL_DRIVER_VERSION: return text("1", size, value, ret);
        case CL_DEVICE_PROFILE: return text("FULL_PROFILE", size, value, ret);
        case CL_DEVICE_EXTENSIONS: return text("", size, value, ret);
        case CL_DEVICE_PLATFORM: NUMBER(cl_platform_id, &platform)
        case CL_DEVICE_MAX_COMPUTE_UNITS: case CL_DEVICE_MAX_CLOCK_FREQUENCY: NUMBER(cl_uint, 4)
        case CL_DEVICE_ADDRESS_BITS: NUMBER(cl_uint, 64)
        case CL_DEVICE_MAX_WORK_ITEM_DIMENSIONS: NUMBER(cl_uint, 3)
        case CL_DEVICE_MAX_WORK_GROUP_SIZE: NUMBER(size_t, 1024)
        case CL_DEVICE_MAX_WORK_ITEM_SIZES:
        {
            size_t v[3] = {1024, 1024, 1024};
            return info(v, sizeof v, size, value, ret);
        }
        case CL_DEVICE_GLOBAL_MEM_SIZE: case CL_DEVICE_MAX_MEM_ALLOC_SIZE: case CL_DEVICE_LOCAL_MEM_SIZE:
            NUMBER(cl_ulong, 1 << 28)
        case CL_DEVICE_ENDIAN_LITTLE: case CL_DEVICE_AVAILABLE: case CL_DEVICE_COMPILER_AVAILABLE: NUMBER(cl_bool, 1)
        case CL_DEVICE_SINGLE_FP_CONFIG: case CL_DEVICE_DOUBLE_FP_CONFIG: NUMBER(cl_device_fp_config, CL_FP_ROUND_TO_NEAREST)
        case CL_DEVICE_PARTITION_MAX_SUB_DEVICES: NUMBER(cl_uint, 0)
        default:
        {
            cl_ulong v = 0;
            return info(&v, sizeof v < size || !value ? sizeof v : size, size, value, ret);
        }
    }
}
API cl_int clRetainDevice(cl_device_id) { return CL_SUCCESS; }
API cl_int clReleaseDevice(cl_device_id) { return CL_SUCCESS; }
API cl_context clCreateContext(const cl_context_properties*, cl_uint, const cl_device_id*,
                               void (*)(const char*, const void*, size_t, void*), void*, cl_int* error)
{
    if (error) *error = CL_SUCCESS;
    ++context.refs;
    return &context;
}
API cl_int clRetainContext(cl_context) { return CL_SUCCESS; }
API cl_int clReleaseContext(cl_context) { return CL_SUCCESS; }
API cl_int clGetContextInfo(cl_context, cl_context_info what, PARAMS)
{
    switch (what)
    {
        case CL_CONTEXT_DEVICES: NUMBER(cl_device_id, &device)
        case CL_CONTEXT_NUM_DEVICES: case CL_CONTEXT_REFERENCE_COUNT: NUMBER(cl_uint, 1)
        default: return CL_INVALID_VALUE;
    }
}
API cl_command_queue clCreateCommandQueue(cl_context, cl_device_id, cl_command_queue_properties, cl_int* error)
{
    if (error) *error = CL_SUCCESS;
    return new _cl_command_queue;
}
API cl_int clRetainCommandQueue(cl_command_queue q) { ++q->refs; return CL_SUCCESS; }
API cl_int clReleaseCommandQueue(cl_command_queue q)
{
    flush();
    if (--q->refs == 0) delete q;
    return CL_SUCCESS;
}
API cl_int clGetCommandQueueInfo(cl_command_queue, cl_command_queue_info what, PARAMS)
{
    switch (what)
    {
        case CL_QUEUE_CONTEXT: NUMBER(cl_context, &context)
        case CL_QUEUE_DEVICE: NUMBER(cl_device_id, &device)
        case CL_QUEUE_REFERENCE_COUNT: NUMBER(cl_uint, 1)
        case CL_QUEUE_PROPERTIES: NUMBER(cl_command_queue_properties, 0)
        default: return CL_INVALID_VALUE;
    }
}
API cl_int clFlush(cl_command_queue) { return CL_SUCCESS; }
API cl_int clFinish(cl_command_queue) { flush(); return CL_SUCCESS; }
API cl_int clWaitForEvents(cl_uint, const cl_event*) { flush(); return CL_SUCCESS; }
API cl_int clRetainEvent(cl_event e) { ++e->refs; return CL_SUCCESS; }
API cl_int clReleaseEvent(cl_event e) { if (--e->refs == 0) delete e; return CL_SUCCESS; }
API cl_int clGetEventInfo(cl_event e, cl_event_info what, PARAMS)
{
    switch (what)
    {
        case CL_EVENT_COMMAND_EXECUTION_STATUS: NUMBER(cl_int, e->done ? CL_COMPLETE : CL_QUEUED)
        case CL_EVENT_CONTEXT: NUMBER(cl_context, &context)
        default: return CL_INVALID_VALUE;
    }
}

// ---- memory
API cl_mem clCreateBuffer(cl_context, cl_mem_flags flags, size_t n, void* host, cl_int* error)
{
    if (n == 0 || n > (1UL << 28))
    {
        if (error) *error = CL_INVALID_BUFFER_SIZE;
        return nullptr;
    }
    cl_mem m = new _cl_mem;
    size_t page = 4096;
    m->n = n;
    m->region = (n + 2 * page - 1) / page * page + page;
    m->start = static_cast<char*>(mmap(nullptr, m->region + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    m->start += page;
    mprotect(m->start, m->region, PROT_READ | PROT_WRITE);
    m->p = m->start + m->region / 2 / 4096 * 4096;
    if (m->p + n > m->start + m->region) m->p = m->start + (m->region - n) / 64 * 64;
    memset(m->start, 0xA5, m->region);
    m->writable = !(flags & CL_MEM_READ_ONLY);
    if (host && (flags & (CL_MEM_COPY_HOST_PTR | CL_MEM_USE_HOST_PTR))) memcpy(m->p, host, n);
    buffers.insert(m);
    if (error) *error = CL_SUCCESS;
    return m;
}
API cl_int clRetainMemObject(cl_mem m) { ++m->refs; return CL_SUCCESS; }
API cl_int clReleaseMemObject(cl_mem m)
{
    if (--m->refs == 0)
    {
        flush();
        buffers.erase(m);
        munmap(m->start - 4096, m->region + 2 * 4096);
        delete m;
    }
    return CL_SUCCESS;
}
API cl_int clGetMemObjectInfo(cl_mem m, cl_mem_info what, PARAMS)
{
    switch (what)
    {
        case CL_MEM_SIZE: NUMBER(size_t, m->n)
        case CL_MEM_CONTEXT: NUMBER(cl_context, &context)
        case CL_MEM_REFERENCE_COUNT: NUMBER(cl_uint, static_cast<cl_uint>(m->refs))
        case CL_MEM_TYPE: NUMBER(cl_mem_object_type, CL_MEM_OBJECT_BUFFER)
        case CL_MEM_FLAGS: NUMBER(cl_mem_flags, m->writable ? CL_MEM_READ_WRITE : CL_MEM_READ_ONLY)
        case CL_MEM_HOST_PTR: NUMBER(void*, nullptr)
        default: return CL_INVALID_VALUE;
    }
}
#define EVENTS cl_uint, const cl_event*, cl_event* event
static bool fits(cl_mem m, size_t off, size_t n) { return n && off <= m->n && n <= m->n - off; }
API cl_int clEnqueueReadBuffer(cl_command_queue, cl_mem m, cl_bool blocking, size_t off, size_t n, void* p, EVENTS)
{
    if (!fits(m, off, n) || !p) return CL_INVALID_VALUE;
    submit([=] { memcpy(p, m->p + off, n); }, blocking, event);
    return CL_SUCCESS;
}
API cl_int clEnqueueWriteBuffer(cl_command_queue, cl_mem m, cl_bool blocking, size_t off, size_t n, const void* p, EVENTS)
{
    if (!fits(m, off, n) || !p) return CL_INVALID_VALUE;
    submit([=] { memcpy(m->p + off, p, n); }, blocking, event);
    return CL_SUCCESS;
}
API cl_int clEnqueueCopyBuffer(cl_command_queue, cl_mem a, cl_mem b, size_t from, size_t to, size_t n, EVENTS)
{
    if (!fits(a, from, n) || !fits(b, to, n)) return CL_INVALID_VALUE;
    if (a == b && from < to + n && to < from + n) return CL_MEM_COPY_OVERLAP;
    submit([=] { memmove(b->p + to, a->p + from, n); }, false, event);
    return CL_SUCCESS;
}
API cl_int clEnqueueFillBuffer(cl_command_queue, cl_mem m, const void* pattern, size_t k, size_t off, size_t n, EVENTS)
{
    if (!fits(m, off, n) || !k || n % k || off % k) return CL_INVALID_VALUE;
    vector<char> v(static_cast<const char*>(pattern), static_cast<const char*>(pattern) + k);
    submit([=] { for (size_t j = 0; j < n; j += k) memcpy(m->p + off + j, v.data(), k); }, false, event);
    return CL_SUCCESS;
}
// The host works on a copy while a buffer is mapped.
struct Mapping { size_t off, n; bool write; };
static std::map<void*, Mapping> mappings;
API void* clEnqueueMapBuffer(cl_command_queue, cl_mem m, cl_bool blocking, cl_map_flags flags, size_t off, size_t n,
                             cl_uint, const cl_event*, cl_event* event, cl_int* error)
{
    if (!fits(m, off, n))
    {
        if (error) *error = CL_INVALID_VALUE;
        return nullptr;
    }
    char* c = static_cast<char*>(malloc(n));
    mappings[c] = Mapping{off, n, (flags & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION)) != 0};
    bool junk = (flags & CL_MAP_WRITE_INVALIDATE_REGION) != 0;
    submit([=] { if (junk) memset(c, 0x5A, n); else memcpy(c, m->p + off, n); }, blocking, event);
    if (error) *error = CL_SUCCESS;
    return c;
}
API cl_int clEnqueueUnmapMemObject(cl_command_queue, cl_mem m, void* p, EVENTS)
{
    auto it = mappings.find(p);
    if (it == mappings.end()) return CL_INVALID_VALUE;
    Mapping x = it->second;
    mappings.erase(it);
    submit([=] { if (x.write) memcpy(m->p + x.off, p, x.n); free(p); }, false, event);
    return CL_SUCCESS;
}

// ---- programs
API cl_program clCreateProgramWithSource(cl_context, cl_uint n, const char** s, const size_t* len, cl_int* error)
{
    cl_program p = new _cl_program;
    for (cl_uint k = 0; k < n; ++k) p->source += len && len[k] ? string(s[k], len[k]) : string(s[k]);
    if (error) *error = CL_SUCCESS;
    return p;
}
static string quoted(const string& s)
{
    string r = "'";
    for (char c : s) r += c == '\'' ? string("'\\''") : string(1, c);
    return r + "'";
}
// Types of the arguments of every kernel, from the compiled code.
static void readKernels(cl_program p, const string& ll)
{
    std::ifstream in(ll);
    std::stringstream all;
    all << in.rdbuf();
    string s = all.str();
    for (size_t a = s.find("\ndefine "); a != string::npos; a = s.find("\ndefine ", a + 1))
    {
        size_t eol = s.find('\n', a + 1);
        string line = s.substr(a + 1, eol - a - 1);
        size_t at = line.find('@');
        if (line.find("kernel_arg_type") == string::npos) continue;
        size_t open = line.find('(', at);
        string name = line.substr(at + 1, open - at - 1), cur;
        vector<string> types;
        int depth = 0;
        for (size_t k = open + 1; k < line.size(); ++k)
        {
            char c = line[k];
            if (c == '(') ++depth;
            if ((c == ',' && depth == 0) || (c == ')' && depth == 0))
            {
                size_t b = cur.find_first_not_of(' ');
                if (b != string::npos)
                    types.push_back(cur.substr(b, cur.find_first_of(" ,", b) - b));
                cur.clear();
                if (c == ')') break;
                continue;
            }
            if (c == ')') --depth;
            cur += c;
        }
        p->kernels[name] = types;
    }
    for (size_t a = s.find("\n@"); a != string::npos; a = s.find("\n@", a + 1))
    {
        string line = s.substr(a + 1, s.find('\n', a + 1) - a - 1);
        if (line.find(" = internal ") != string::npos && line.find(" global ") != string::npos) p->local = true;
    }
}
API cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id*, const char* options,
                          void (*)(cl_program, void*), void*)
{
    static const string include = [] {
        string s = __FILE__;
        return s.substr(0, s.rfind('/'));
    }();
    const char* c = getenv("FAKECL_CACHE");
    string cache = c ? c : "/tmp";
    const char* b = getenv("FAKECL_BUILTINS");
    string builtins = b ? b : include + "/builtins.cl";
    size_t hash = std::hash<string>()(p->source + "\n" + (options ? options : ""));
    string base = cache + "/kernel-" + std::to_string(hash) + (c ? "" : "-" + std::to_string(getpid()));
    string tmp = base + "-" + std::to_string(getpid());
    if (!c || access((base + ".so").c_str(), R_OK) != 0)
    {
        std::ofstream(tmp + ".cl") << p->source;
        string common = "clang -x cl -target x86_64-linux-gnu -Xclang -finclude-default-header -O1 -fPIC ";
        string cmd = "{ " + common + (options ? options : "") + " -w -cl-kernel-arg-info -fsanitize=thread -S -emit-llvm "
            + quoted(tmp + ".cl") + " -o " + quoted(tmp + ".ll") + " && " + common + " -cl-std=CL1.2 -c " + quoted(builtins)
            + " -o " + quoted(tmp + "-b.o") + " && clang -w -O1 -fPIC -shared " + quoted(tmp + ".ll") + " "
            + quoted(tmp + "-b.o") + " -o " + quoted(tmp + ".so") + "; } > " + quoted(tmp + ".log") + " 2>&1";
        int rc = system(cmd.c_str());
        std::stringstream log;
        log << std::ifstream(tmp + ".log").rdbuf();
        p->log = log.str();
        if (rc == 0)
        {
            rename((tmp + ".ll").c_str(), (base + ".ll").c_str());
            rename((tmp + ".so").c_str(), (base + ".so").c_str());
        }
        for (const char* e : {".cl", "-b.o", ".log", ".ll", ".so"}) unlink((tmp + e).c_str());
        if (rc != 0)
        {
            p->status = CL_BUILD_ERROR;
            return CL_BUILD_PROGRAM_FAILURE;
        }
    }
    p->lib = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!p->lib)
    {
        p->log = dlerror();
        p->status = CL_BUILD_ERROR;
        return CL_BUILD_PROGRAM_FAILURE;
    }
    readKernels(p, base + ".ll");
    if (!c)
    {
        unlink((base + ".ll").c_str());
        unlink((base + ".so").c_str());
    }
    p->status = CL_BUILD_SUCCESS;
    return CL_SUCCESS;
}
API cl_int clRetainProgram(cl_program p) { ++p->refs; return CL_SUCCESS; }
API cl_int clReleaseProgram(cl_program p)
{
    if (--p->refs == 0)
    {
        flush();
        if (p->lib) dlclose(p->lib);
        delete p;
    }
    return CL_SUCCESS;
}
API cl_int clGetProgramInfo(cl_program p, cl_program_info what, PARAMS)
{
    switch (what)
    {
        case CL_PROGRAM_CONTEXT: NUMBER(cl_context, &context)
        case CL_PROGRAM_DEVICES: NUMBER(cl_device_id, &device)
        case CL_PROGRAM_NUM_DEVICES: NUMBER(cl_uint, 1)
        case CL_PROGRAM_NUM_KERNELS: NUMBER(size_t, p->kernels.size())
        case CL_PROGRAM_SOURCE: return text(p->source, size, value, ret);
        default: return CL_INVALID_VALUE;
    }
}
API cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info what, PARAMS)
{
    if (what == CL_PROGRAM_BUILD_LOG) return text(p->log, size, value, ret);
    if (what == CL_PROGRAM_BUILD_STATUS) NUMBER(cl_build_status, p->status)
    return text("", size, value, ret);
}
API cl_kernel clCreateKernel(cl_program p, const char* name, cl_int* error)
{
    auto it = p->kernels.find(name);
    void* fn = p->lib ? dlsym(p->lib, name) : nullptr;
    if (it == p->kernels.end() || !fn)
    {
        if (error) *error = CL_INVALID_KERNEL_NAME;
        return nullptr;
    }
    cl_kernel k = new _cl_kernel;
    k->program = p;
    ++p->refs;
    k->name = name;
    k->fn = fn;
    k->types = it->second;
    k->args.resize(k->types.size());
    if (error) *error = CL_SUCCESS;
    return k;
}
API cl_int clRetainKernel(cl_kernel k) { ++k->refs; return CL_SUCCESS; }
API cl_int clReleaseKernel(cl_kernel k)
{
    if (--k->refs == 0)
    {
        flush();
        clReleaseProgram(k->program);
        delete k;
    }
    return CL_SUCCESS;
}
API cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info what, PARAMS)
{
    switch (what)
    {
        case CL_KERNEL_NUM_ARGS: NUMBER(cl_uint, static_cast<cl_uint>(k->types.size()))
        case CL_KERNEL_FUNCTION_NAME: return text(k->name, size, value, ret);
        case CL_KERNEL_CONTEXT: NUMBER(cl_context, &context)
        case CL_KERNEL_PROGRAM: NUMBER(cl_program, k->program)
        default: return CL_INVALID_VALUE;
    }
}
static size_t sizeOf(const string& t)
{
    return t == "ptr" || t == "i64" || t == "double" ? 8 : t == "i32" || t == "float" ? 4 : t == "i16" ? 2 : 1;
}
API cl_int clSetKernelArg(cl_kernel k, cl_uint n, size_t size, const void* value)
{
    if (n >= k->types.size()) return CL_INVALID_ARG_INDEX;
    if (size != sizeOf(k->types[n])) return CL_INVALID_ARG_SIZE;
    if (!value) return CL_INVALID_ARG_VALUE;      // memory shared by a group: not supported
    const char* v = static_cast<const char*>(value);
    if (k->types[n] == "ptr")
    {
        cl_mem m;
        memcpy(&m, value, sizeof m);
        if (!buffers.count(m)) return CL_INVALID_MEM_OBJECT;
        v = reinterpret_cast<const char*>(&m->p);
    }
    k->args[n].assign(v, v + size);
    return CL_SUCCESS;
}
API cl_int clEnqueueNDRangeKernel(cl_command_queue, cl_kernel k, cl_uint dim, const size_t* offset, const size_t* global,
                                  const size_t* local, EVENTS)
{
    if (dim < 1 || dim > 3) return CL_INVALID_WORK_DIMENSION;
    if (!global) return CL_INVALID_GLOBAL_WORK_SIZE;
    Range range;
    range.dim = dim;
    range.split = local != nullptr;
    for (cl_uint d = 0; d < dim; ++d)
    {
        if (!global[d]) return CL_INVALID_GLOBAL_WORK_SIZE;
        range.global[d] = global[d];
        if (offset) range.offset[d] = offset[d];
        if (local && (!local[d] || global[d] % local[d])) return CL_INVALID_WORK_GROUP_SIZE;
        if (local) range.local[d] = local[d];
    }
    if (range.size() > 1024) return CL_INVALID_WORK_GROUP_SIZE;
    for (auto& a : k->args) if (a.empty()) return CL_INVALID_KERNEL_ARGS;
    auto args = k->args;
    ++k->refs;
    submit([=] { launch(k, args, range); if (--k->refs == 0) { clReleaseProgram(k->program); delete k; } }, false, event);
    return CL_SUCCESS;
}
API cl_int clEnqueueTask(cl_command_queue q, cl_kernel k, EVENTS)
{
    size_t one = 1;
    return clEnqueueNDRangeKernel(q, k, 1, nullptr, &one, &one, 0, nullptr, event);
}
}
