// OpenCL C built-in functions the kernels may call, as plain code (exact arithmetic is decided over the reals).
#pragma OPENCL EXTENSION cl_khr_fp64 : enable
unsigned long __ocl_id(unsigned what, unsigned dim);
void __ocl_barrier(void);
#define OV static inline __attribute__((overloadable, always_inline))
OV unsigned long get_global_id(unsigned d) { return __ocl_id(0, d); }
OV unsigned long get_local_id(unsigned d) { return __ocl_id(1, d); }
OV unsigned long get_group_id(unsigned d) { return __ocl_id(2, d); }
OV unsigned long get_global_size(unsigned d) { return __ocl_id(3, d); }
OV unsigned long get_local_size(unsigned d) { return __ocl_id(4, d); }
OV unsigned long get_num_groups(unsigned d) { return __ocl_id(5, d); }
OV unsigned long get_global_offset(unsigned d) { return __ocl_id(6, d); }
OV unsigned get_work_dim(void) { return __ocl_id(7, 0); }
OV void barrier(unsigned f) { __ocl_barrier(); }
OV void mem_fence(unsigned f) {}
OV void read_mem_fence(unsigned f) {}
OV void write_mem_fence(unsigned f) {}
#define SC(T, B) \
OV T sqrt(T x) { return __builtin_sqrt##B(x); } OV T native_sqrt(T x) { return __builtin_sqrt##B(x); } OV T half_sqrt(T x) { return __builtin_sqrt##B(x); } \
OV T rsqrt(T x) { return (T)1 / __builtin_sqrt##B(x); } OV T native_rsqrt(T x) { return (T)1 / __builtin_sqrt##B(x); } OV T half_rsqrt(T x) { return (T)1 / __builtin_sqrt##B(x); } \
OV T native_recip(T x) { return (T)1 / x; } OV T native_divide(T x, T y) { return x / y; } \
OV T fabs(T x) { return __builtin_fabs##B(x); } OV T floor(T x) { return __builtin_floor##B(x); } OV T ceil(T x) { return __builtin_ceil##B(x); } OV T trunc(T x) { return __builtin_trunc##B(x); } OV T round(T x) { return __builtin_round##B(x); } \
OV T pow(T x, T y) { return __builtin_pow##B(x, y); } OV T copysign(T x, T y) { return __builtin_copysign##B(x, y); } \
OV T fmin(T x, T y) { return __builtin_fmin##B(x, y); } OV T fmax(T x, T y) { return __builtin_fmax##B(x, y); } \
OV T min(T x, T y) { return y < x ? y : x; } OV T max(T x, T y) { return x < y ? y : x; } OV T clamp(T x, T a, T b) { return min(max(x, a), b); } \
OV T mad(T x, T y, T z) { return x * y + z; } OV T fma(T x, T y, T z) { return x * y + z; } OV T mix(T x, T y, T a) { return x + (y - x) * a; } \
OV T select(T a, T b, long c) { return c ? b : a; }
SC(double, ) SC(float, f)
#define V3(T, n, DOT) OV T dot(T##n a, T##n b) { return DOT; } OV T length(T##n a) { return sqrt(dot(a, a)); } OV T fast_length(T##n a) { return sqrt(dot(a, a)); } \
OV T distance(T##n a, T##n b) { T##n c = a - b; return sqrt(dot(c, c)); } OV T fast_distance(T##n a, T##n b) { T##n c = a - b; return sqrt(dot(c, c)); } OV T##n normalize(T##n a) { return a / length(a); }
#define VV(T) V3(T, 2, a.x * b.x + a.y * b.y) V3(T, 3, a.x * b.x + a.y * b.y + a.z * b.z) V3(T, 4, a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w) \
OV T##2 min(T##2 a, T##2 b) { return (T##2)(min(a.x, b.x), min(a.y, b.y)); } OV T##2 max(T##2 a, T##2 b) { return (T##2)(max(a.x, b.x), max(a.y, b.y)); } \
OV T##3 min(T##3 a, T##3 b) { return (T##3)(min(a.x, b.x), min(a.y, b.y), min(a.z, b.z)); } OV T##3 max(T##3 a, T##3 b) { return (T##3)(max(a.x, b.x), max(a.y, b.y), max(a.z, b.z)); } \
OV T##4 min(T##4 a, T##4 b) { return (T##4)(min(a.x, b.x), min(a.y, b.y), min(a.z, b.z), min(a.w, b.w)); } OV T##4 max(T##4 a, T##4 b) { return (T##4)(max(a.x, b.x), max(a.y, b.y), max(a.z, b.z), max(a.w, b.w)); } \
OV T##2 fmin(T##2 a, T##2 b) { return min(a, b); } OV T##2 fmax(T##2 a, T##2 b) { return max(a, b); } OV T##3 fmin(T##3 a, T##3 b) { return min(a, b); } OV T##3 fmax(T##3 a, T##3 b) { return max(a, b); } OV T##4 fmin(T##4 a, T##4 b) { return min(a, b); } OV T##4 fmax(T##4 a, T##4 b) { return max(a, b); } \
OV T##3 fabs(T##3 a) { return (T##3)(fabs(a.x), fabs(a.y), fabs(a.z)); } OV T##3 sqrt(T##3 a) { return (T##3)(sqrt(a.x), sqrt(a.y), sqrt(a.z)); } OV T##3 cross(T##3 a, T##3 b) { return (T##3)(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
VV(double) VV(float)
#define IN(T) OV T min(T x, T y) { return y < x ? y : x; } OV T max(T x, T y) { return x < y ? y : x; } OV T clamp(T x, T a, T b) { return min(max(x, a), b); }
IN(int) IN(unsigned) IN(long) IN(ulong)
OV int mul24(int a, int b) { return a * b; } OV int mad24(int a, int b, int c) { return a * b + c; }
OV int abs(int a) { return a < 0 ? -a : a; }
OV int clz(int a) { return a ? __builtin_clz((unsigned)a) : 32; } OV int popcount(int a) { return __builtin_popcount((unsigned)a); }
#if __OPENCL_C_VERSION__ >= 200
OV int ctz(int a) { return a ? __builtin_ctz((unsigned)a) : 32; }
#endif
#undef OV
#undef SC
#undef V3
#undef VV
#undef IN
