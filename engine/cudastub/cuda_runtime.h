// The part of the CUDA runtime interface the program may use, on the device model in cudart.cpp.
#ifndef SYM_CUDA_RUNTIME_H
#define SYM_CUDA_RUNTIME_H
#include <stddef.h>
#include <string.h>
#include <math.h>
#include <stdlib.h>
#include <algorithm>
#include <cmath>
#define CUDART_VERSION 10020
#define __global__
#define __device__
#define __host__
#define __forceinline__ inline
#define __restrict__
#define __constant__
#define __launch_bounds__(...)
#define __shared__ static __attribute__((section("symshared")))
enum cudaError { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorMemoryAllocation = 2, cudaErrorInvalidConfiguration = 9, cudaErrorInvalidDevicePointer = 17, cudaErrorInvalidMemcpyDirection = 21, cudaErrorNoDevice = 100, cudaErrorInvalidDevice = 101, cudaErrorInvalidResourceHandle = 400, cudaErrorNotReady = 600 };
typedef cudaError cudaError_t;
enum cudaMemcpyKind { cudaMemcpyHostToHost = 0, cudaMemcpyHostToDevice = 1, cudaMemcpyDeviceToHost = 2, cudaMemcpyDeviceToDevice = 3, cudaMemcpyDefault = 4 };
enum cudaFuncCache { cudaFuncCachePreferNone, cudaFuncCachePreferShared, cudaFuncCachePreferL1, cudaFuncCachePreferEqual };
typedef struct SymStream* cudaStream_t;
typedef struct SymEvent* cudaEvent_t;
#define cudaStreamDefault 0
#define cudaStreamNonBlocking 1
#define cudaStreamLegacy ((cudaStream_t)1)
#define cudaEventDisableTiming 2
typedef unsigned long long cudaTextureObject_t;
enum cudaResourceType { cudaResourceTypeArray, cudaResourceTypeMipmappedArray, cudaResourceTypeLinear, cudaResourceTypePitch2D };
enum cudaChannelFormatKind { cudaChannelFormatKindSigned, cudaChannelFormatKindUnsigned, cudaChannelFormatKindFloat, cudaChannelFormatKindNone };
enum cudaTextureReadMode { cudaReadModeElementType, cudaReadModeNormalizedFloat };
enum cudaTextureAddressMode { cudaAddressModeWrap, cudaAddressModeClamp, cudaAddressModeMirror, cudaAddressModeBorder };
enum cudaTextureFilterMode { cudaFilterModePoint, cudaFilterModeLinear };
struct cudaChannelFormatDesc { int x, y, z, w; cudaChannelFormatKind f; };
struct cudaResourceDesc { cudaResourceType resType; struct { struct { void* devPtr; cudaChannelFormatDesc desc; size_t sizeInBytes; } linear; } res; };
struct cudaTextureDesc { cudaTextureAddressMode addressMode[3]; cudaTextureFilterMode filterMode; cudaTextureReadMode readMode; int sRGB; float borderColor[4]; int normalizedCoords; };
struct cudaResourceViewDesc;
struct cudaUUID_t { char bytes[16]; };
struct cudaDeviceProp { char name[256]; cudaUUID_t uuid; size_t totalGlobalMem, sharedMemPerBlock, totalConstMem, memPitch, sharedMemPerMultiprocessor; int regsPerBlock, warpSize, maxThreadsPerBlock, maxThreadsDim[3], maxGridSize[3], major, minor, multiProcessorCount, pciBusID, pciDeviceID, pciDomainID, l2CacheSize, regsPerMultiprocessor; };
struct dim3 { unsigned x, y, z; dim3(unsigned a = 1, unsigned b = 1, unsigned c = 1) : x(a), y(b), z(c) {} };
extern "C" {
const char* cudaGetErrorString(cudaError_t); const char* cudaGetErrorName(cudaError_t);
cudaError_t cudaGetDeviceCount(int*); cudaError_t cudaSetDevice(int); cudaError_t cudaGetDevice(int*); cudaError_t cudaGetDeviceProperties(cudaDeviceProp*, int);
cudaError_t cudaDeviceSynchronize(); cudaError_t cudaGetLastError(); cudaError_t cudaPeekAtLastError(); cudaError_t cudaDeviceReset();
cudaError_t cudaStreamCreate(cudaStream_t*); cudaError_t cudaStreamCreateWithFlags(cudaStream_t*, unsigned); cudaError_t cudaStreamDestroy(cudaStream_t); cudaError_t cudaStreamSynchronize(cudaStream_t); cudaError_t cudaStreamQuery(cudaStream_t);
cudaError_t cudaEventCreate(cudaEvent_t*); cudaError_t cudaEventCreateWithFlags(cudaEvent_t*, unsigned); cudaError_t cudaEventDestroy(cudaEvent_t); cudaError_t cudaEventSynchronize(cudaEvent_t);
cudaError_t sym_event_record(cudaEvent_t, cudaStream_t); cudaError_t sym_stream_wait(cudaStream_t, cudaEvent_t);
cudaError_t sym_malloc(void**, size_t); cudaError_t cudaFree(void*);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind); cudaError_t sym_memcpy_async(void*, const void*, size_t, cudaMemcpyKind, cudaStream_t);
cudaError_t cudaMemcpy2D(void*, size_t, const void*, size_t, size_t, size_t, cudaMemcpyKind); cudaError_t sym_memcpy2d_async(void*, size_t, const void*, size_t, size_t, size_t, cudaMemcpyKind, cudaStream_t);
cudaError_t cudaMemcpyPeer(void*, int, const void*, int, size_t); cudaError_t sym_memcpy_peer_async(void*, int, const void*, int, size_t, cudaStream_t);
cudaError_t cudaMemset(void*, int, size_t); cudaError_t sym_memset_async(void*, int, size_t, cudaStream_t);
cudaError_t cudaCreateTextureObject(cudaTextureObject_t*, const cudaResourceDesc*, const cudaTextureDesc*, const cudaResourceViewDesc*); cudaError_t cudaDestroyTextureObject(cudaTextureObject_t);
unsigned sym_cuda_id(unsigned what, unsigned dim); void __syncthreads(); void* sym_cuda_shared();
const void* sym_tex(cudaTextureObject_t, int index, int kind, int lanes);   // address of an element, null outside
void sym_launch(void (*run)(void*), void (*del)(void*), void* closure, const unsigned* grid, const unsigned* block, size_t shared, cudaStream_t s, const char* name);
}
inline cudaError_t cudaMemcpyAsync(void* d, const void* s, size_t n, cudaMemcpyKind k, cudaStream_t st = 0) { return sym_memcpy_async(d, s, n, k, st); }
inline cudaError_t cudaMemcpy2DAsync(void* d, size_t dp, const void* s, size_t sp, size_t w, size_t h, cudaMemcpyKind k, cudaStream_t st = 0) { return sym_memcpy2d_async(d, dp, s, sp, w, h, k, st); }
inline cudaError_t cudaMemcpyPeerAsync(void* d, int dd, const void* s, int sd, size_t n, cudaStream_t st = 0) { return sym_memcpy_peer_async(d, dd, s, sd, n, st); }
inline cudaError_t cudaMemsetAsync(void* d, int v, size_t n, cudaStream_t st = 0) { return sym_memset_async(d, v, n, st); }
inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s = 0) { return sym_event_record(e, s); }
inline cudaError_t cudaStreamWaitEvent(cudaStream_t s, cudaEvent_t e, unsigned = 0) { return sym_stream_wait(s, e); }
template<class T> inline cudaError_t cudaMalloc(T** p, size_t n) { return sym_malloc((void**)(void*)p, n); }
template<class F> inline cudaError_t cudaFuncSetCacheConfig(F, cudaFuncCache) { return cudaSuccess; }
#ifdef SYM_DEVICE_CODE
template<int W, int D> struct SymIdx1 { operator unsigned() const { return sym_cuda_id(W, D); } };
template<int W> struct SymIdx { SymIdx1<W, 0> x; SymIdx1<W, 1> y; SymIdx1<W, 2> z; };
static const SymIdx<0> threadIdx = SymIdx<0>(); static const SymIdx<1> blockIdx = SymIdx<1>(); static const SymIdx<2> blockDim = SymIdx<2>(); static const SymIdx<3> gridDim = SymIdx<3>();
template<class... P, class... A> inline void sym_start(const char* name, void (*k)(P...), dim3 g, dim3 b, size_t sh, cudaStream_t s, A... args)
{
	auto f = [=]() { k(args...); }; typedef decltype(f) F;
	unsigned gg[3] = {g.x, g.y, g.z}, bb[3] = {b.x, b.y, b.z};
	sym_launch([](void* p) { (*(F*)p)(); }, [](void* p) { delete(F*)p; }, new F(f), gg, bb, sh, s, name);
}
template<class... P> struct SymGo
{
	const char* name; void (*k)(P...); dim3 g, b; size_t sh; cudaStream_t s;
	SymGo(const char* n, void (*f)(P...), dim3 g_, dim3 b_, size_t sh_ = 0, cudaStream_t s_ = 0) : name(n), k(f), g(g_), b(b_), sh(sh_), s(s_) {}
	void operator()(P... a) const { sym_start(name, k, g, b, sh, s, a...); }
};
template<class... P, class... C> inline SymGo<P...> sym_go(const char* n, void (*k)(P...), C... c) { return SymGo<P...>(n, k, c...); }
#define SYM_LAUNCH(k, ...) sym_go(#k, k, __VA_ARGS__)
#endif
inline double min(double a, double b) { return a < b ? a : b; } inline double max(double a, double b) { return a > b ? a : b; }
inline float min(float a, float b) { return a < b ? a : b; } inline float max(float a, float b) { return a > b ? a : b; }
inline int min(int a, int b) { return a < b ? a : b; } inline int max(int a, int b) { return a > b ? a : b; }
inline double rsqrt(double a) { return 1.0 / sqrt(a); } inline float rsqrtf(float a) { return 1.0f / sqrtf(a); }
inline double __dsqrt_rn(double a) { return sqrt(a); } inline int __ffs(int x) { return __builtin_ffs(x); } inline int __clz(int x) { return x ? __builtin_clz(x) : 32; } inline int __popc(unsigned x) { return __builtin_popcount(x); }
inline void __threadfence() {} inline void __threadfence_block() {}
struct double2 { double x, y; }; struct double3 { double x, y, z; }; struct double4 { double x, y, z, w; };
struct float2 { float x, y; }; struct float3 { float x, y, z; }; struct float4 { float x, y, z, w; };
// A half of a double as an int, kept together with the double it comes from
struct SymHalf
{
	const double* p; double v; int hi; int i;
	SymHalf() : p(0), v(0), hi(0), i(0) {} SymHalf(int n) : p(0), v(0), hi(0), i(n) {} SymHalf(const double* q, int h) : p(q), v(*q), hi(h), i(0) {}
	operator int() const { if(!p) return i; long long b; memcpy(&b, &v, 8); return hi ? int(b >> 32) : int(b); }
};
struct int2 { SymHalf x, y; }; struct int4 { SymHalf x, y, z, w; };
inline double __hiloint2double(const SymHalf& hi, const SymHalf& lo)
{
	if(hi.p && hi.p == lo.p && hi.hi && !lo.hi) return hi.v;
	long long b = ((long long)int(hi) << 32) | (unsigned)int(lo); double d; memcpy(&d, &b, 8); return d;
}
template<class T> T tex1Dfetch(cudaTextureObject_t t, int i);
template<> inline int2 tex1Dfetch<int2>(cudaTextureObject_t t, int i) { const double* p = (const double*)sym_tex(t, i, 0, 2); int2 r; if(p) { r.x = SymHalf(p, 0); r.y = SymHalf(p, 1); } return r; }
template<> inline int4 tex1Dfetch<int4>(cudaTextureObject_t t, int i) { const double* p = (const double*)sym_tex(t, i, 0, 4); int4 r; if(p) { r.x = SymHalf(p, 0); r.y = SymHalf(p, 1); r.z = SymHalf(p + 1, 0); r.w = SymHalf(p + 1, 1); } return r; }
template<> inline float tex1Dfetch<float>(cudaTextureObject_t t, int i) { const float* p = (const float*)sym_tex(t, i, 2, 1); return p ? *p : 0; }
template<> inline float4 tex1Dfetch<float4>(cudaTextureObject_t t, int i) { const float4* p = (const float4*)sym_tex(t, i, 2, 4); float4 z = {0, 0, 0, 0}; return p ? *p : z; }
#endif
