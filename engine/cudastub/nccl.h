// Collective operations between the devices of the model.
#ifndef SYM_NCCL_H
#define SYM_NCCL_H
#include "cuda_runtime.h"
enum ncclResult_t { ncclSuccess = 0, ncclInvalidArgument = 4, ncclInvalidUsage = 5 };
enum ncclDataType_t { ncclInt8 = 0, ncclInt32 = 2, ncclFloat32 = 7, ncclFloat = 7, ncclFloat64 = 8, ncclDouble = 8, ncclNumTypes = 10 };
enum ncclRedOp_t { ncclSum = 0, ncclProd = 1, ncclMax = 2, ncclMin = 3 };
typedef struct SymComm* ncclComm_t;
extern "C" {
const char* ncclGetErrorString(ncclResult_t); ncclResult_t ncclCommInitAll(ncclComm_t*, int, const int*); ncclResult_t ncclCommDestroy(ncclComm_t); ncclResult_t ncclGroupStart(); ncclResult_t ncclGroupEnd();
ncclResult_t ncclAllGather(const void*, void*, size_t, ncclDataType_t, ncclComm_t, cudaStream_t);
// the reduction runs as code of the program
ncclResult_t sym_nccl_reduce(const void*, void*, size_t, ncclDataType_t, ncclRedOp_t, ncclComm_t, cudaStream_t, void (*)(void**, void**, int, size_t));
}
inline void sym_nccl_sum(void** in, void** out, int ranks, size_t n)
{
	for(size_t i = 0; i < n; ++i) { double s = ((double*)in[0])[i]; for(int r = 1; r < ranks; ++r) s = s + ((double*)in[r])[i]; for(int r = 0; r < ranks; ++r) ((double*)out[r])[i] = s; }
}
inline ncclResult_t ncclAllReduce(const void* in, void* out, size_t n, ncclDataType_t t, ncclRedOp_t op, ncclComm_t c, cudaStream_t s) { return sym_nccl_reduce(in, out, n, t, op, c, s, sym_nccl_sum); }
#endif
