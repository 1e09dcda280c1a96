#ifndef SYMRT_H
#define SYMRT_H
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include "symops.h"
typedef uint32_t u32; typedef uint64_t u64;
struct Node { uint8_t op; uint8_t ty; u32 a, b, c; u64 val; u32 extra; };
namespace symrt {
Node& node(u32 id);
u32 mk(u32 op, u32 ty, u32 a, u32 b, u32 c, u32 extra, u64 val);
u32 constant(u32 ty, u64 val);
// shadows of the arguments of the current native (modelled) function; 0 if called from native code
bool native_enter(const void* fn);
u32 arg(unsigned leaf);
void call_prepare(const void* fn, const std::vector<u32>& argshadows);   // about to call instrumented code from native code
void call_prepare_none();
void call_done();      // native function returns no symbolic value
bool shadow_any(const void* p, size_t n);
void ret(unsigned leaf, u32 e);
u32 shadow_load(const void* p, u32 ty, u64 val);
void shadow_store(void* p, u32 ty, u32 e, u64 val);
void shadow_clear(void* p, size_t n);
void shadow_copy(void* d, const void* s, size_t n);
struct Cell { u32 node; uint8_t off; uint8_t poison; };
bool shadow_get_byte(const void* p, Cell& c);
void shadow_set_byte(void* p, Cell c);
void event(const char* fmt, ...);
void poison(const void* p, size_t n, int kind);   // 0 accessible, 1 beyond a heap block, 2 freed
void leak(u32 e, const char* what, const char* site);
void concretize(u32 e, u32 ty, u64 val, const char* site);
extern int omp_threads;
// race recording
void race_touch(const void* p, size_t n, int write, const char* site);
extern int race_active;
// strands of other runtimes
typedef std::vector<u32> VC;
void* hb_spawn(void* parent); VC& hb_vc(void* s); void hb_join(VC& a, const VC& b); void hb_tick(void* s); void hb_enter(void* s, char* base); void hb_free(void* s); void hb_purge(const char* lo, const char* hi); void hb_reset();
void* hb_current(); void hb_restore(void* s); int hb_thread(); void hb_main(); bool hb_quiet(const std::vector<VC*>& v);
}
#endif
