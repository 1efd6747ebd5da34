// Stand-in for the CUDA event API: the completion of events is scripted by the executor.
#ifndef VP_CUDA_STUB
#define VP_CUDA_STUB
#include "vp_gpu.h"
typedef vp_gpu_event *cudaEvent_t;
typedef int cudaError_t;
typedef int cudaStream_t;
enum { cudaSuccess = 0, cudaErrorInvalidValue = 1, cudaErrorInvalidResourceHandle = 400, cudaErrorNotReady = 600 };
enum { cudaEventDefault = 0, cudaEventBlockingSync = 1, cudaEventDisableTiming = 2 };
static inline const char *cudaGetErrorString(cudaError_t c) { return c == 600 ? "not ready" : c == 0 ? "ok" : "error"; }
static inline cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned f) { return vp_gpu_create(e, 'c', f); }
static inline cudaError_t cudaEventCreate(cudaEvent_t *e) { return vp_gpu_create(e, 'c', 0); }
static inline cudaError_t cudaEventDestroy(cudaEvent_t e) { return vp_gpu_destroy(e, 'c'); }
static inline cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t = 0) { return vp_gpu_record(e, 'c'); }
static inline cudaError_t cudaEventQuery(cudaEvent_t e) { return vp_gpu_query(e, 'c'); }
static inline cudaError_t cudaEventSynchronize(cudaEvent_t e) { return vp_gpu_sync(e, 'c'); }
static inline cudaError_t cudaEventElapsedTime(float *ms, cudaEvent_t a, cudaEvent_t b) { return vp_gpu_elapsed(ms, a, b, 'c'); }
static inline cudaError_t cudaGetLastError() { return 0; }
#endif
