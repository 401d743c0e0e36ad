// Work item functions for kernels that fakecl.cpp runs on the host.
extern void fakecl_touch(ulong address);
extern void fakecl_barrier(void);
extern ulong fakecl_id(int what, uint dim);

#define OVER __attribute__((overloadable))
size_t OVER get_global_id(uint d) { return fakecl_id(0, d); }
size_t OVER get_local_id(uint d) { return fakecl_id(1, d); }
size_t OVER get_group_id(uint d) { return fakecl_id(2, d); }
size_t OVER get_global_size(uint d) { return fakecl_id(3, d); }
size_t OVER get_local_size(uint d) { return fakecl_id(4, d); }
size_t OVER get_num_groups(uint d) { return fakecl_id(5, d); }
size_t OVER get_global_offset(uint d) { return fakecl_id(6, d); }
uint OVER get_work_dim(void) { return fakecl_id(7, 0); }
void OVER barrier(cl_mem_fence_flags f) { fakecl_barrier(); }
void OVER work_group_barrier(cl_mem_fence_flags f) { fakecl_barrier(); }
void OVER mem_fence(cl_mem_fence_flags f) { }
void OVER read_mem_fence(cl_mem_fence_flags f) { }
void OVER write_mem_fence(cl_mem_fence_flags f) { }

// One work item runs at a time and is not interrupted after the touch.
#define RMW(name, expr, T, space) \
    __attribute__((no_sanitize("thread"))) T OVER name(volatile space T* p, T v) \
    { fakecl_touch((ulong)p); T o = *p; *p = (expr); return o; }
#define RMW1(name, expr, T, space) \
    __attribute__((no_sanitize("thread"))) T OVER name(volatile space T* p) \
    { fakecl_touch((ulong)p); T o = *p; *p = (expr); return o; }
#define ALL(T, space) \
    RMW(atomic_add, o + v, T, space) RMW(atomic_sub, o - v, T, space) RMW(atomic_xchg, v, T, space) \
    RMW(atomic_min, o < v ? o : v, T, space) RMW(atomic_max, o > v ? o : v, T, space) \
    RMW(atomic_and, o & v, T, space) RMW(atomic_or, o | v, T, space) RMW(atomic_xor, o ^ v, T, space) \
    RMW(atom_add, o + v, T, space) RMW(atom_sub, o - v, T, space) RMW(atom_xchg, v, T, space) \
    RMW(atom_min, o < v ? o : v, T, space) RMW(atom_max, o > v ? o : v, T, space) \
    RMW(atom_and, o & v, T, space) RMW(atom_or, o | v, T, space) RMW(atom_xor, o ^ v, T, space) \
    RMW1(atomic_inc, o + 1, T, space) RMW1(atomic_dec, o - 1, T, space) \
    RMW1(atom_inc, o + 1, T, space) RMW1(atom_dec, o - 1, T, space) \
    __attribute__((no_sanitize("thread"))) T OVER atomic_cmpxchg(volatile space T* p, T c, T v) \
    { fakecl_touch((ulong)p); T o = *p; *p = o == c ? v : o; return o; } \
    __attribute__((no_sanitize("thread"))) T OVER atom_cmpxchg(volatile space T* p, T c, T v) \
    { fakecl_touch((ulong)p); T o = *p; *p = o == c ? v : o; return o; }
ALL(int, __global)
ALL(int, __local)
ALL(uint, __global)
ALL(uint, __local)

#define CONV(T, S) T OVER convert_##T(S x) { return (T)x; }
#define CONVS(T) CONV(T, char) CONV(T, uchar) CONV(T, short) CONV(T, ushort) CONV(T, int) CONV(T, uint) \
    CONV(T, long) CONV(T, ulong) CONV(T, float)
CONVS(char) CONVS(uchar) CONVS(short) CONVS(ushort) CONVS(int) CONVS(uint) CONVS(long) CONVS(ulong) CONVS(float)
#define FLT(name, expr) float OVER name(float x) { return (expr); }
FLT(fabs, x < 0 ? -x : x == 0 ? 0 : x)
float OVER fmin(float a, float b) { return b < a || a != a ? b : a; }
float OVER fmax(float a, float b) { return a < b || a != a ? b : a; }
float OVER mad(float a, float b, float x) { return a * b + x; }
#define INTS(T, U) \
    T OVER min(T a, T b) { return b < a ? b : a; } T OVER max(T a, T b) { return a < b ? b : a; } \
    U OVER abs_diff(T a, T b) { return a > b ? (U)a - (U)b : (U)b - (U)a; } \
    T OVER clamp(T x, T a, T b) { return x < a ? a : x > b ? b : x; }
INTS(int, uint) INTS(uint, uint) INTS(long, ulong) INTS(ulong, ulong)
float OVER min(float a, float b) { return b < a ? b : a; }
float OVER max(float a, float b) { return a < b ? b : a; }
float OVER clamp(float x, float a, float b) { return x < a ? a : x > b ? b : x; }
ulong OVER abs(long x) { return x < 0 ? -x : x; }
ulong OVER abs(ulong x) { return x; }
uint OVER abs(int x) { return x < 0 ? -x : x; }
uint OVER abs(uint x) { return x; }
