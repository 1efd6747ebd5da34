// Stand-in for the HIP event API: the completion of events is scripted by the executor.
#ifndef VP_HIP_STUB
#define VP_HIP_STUB
#include "../vp_gpu.h"
typedef vp_gpu_event *hipEvent_t;
typedef int hipError_t;
typedef int hipStream_t;
enum { hipSuccess = 0, hipErrorInvalidValue = 1, hipErrorInvalidResourceHandle = 400, hipErrorNotReady = 600 };
enum { hipEventDefault = 0, hipEventBlockingSync = 1, hipEventDisableTiming = 2 };
static inline const char *hipGetErrorString(hipError_t c) { return c == 600 ? "not ready" : c == 0 ? "ok" : "error"; }
static inline hipError_t hipEventCreateWithFlags(hipEvent_t *e, unsigned f) { return vp_gpu_create(e, 'h', f); }
static inline hipError_t hipEventCreate(hipEvent_t *e) { return vp_gpu_create(e, 'h', 0); }
static inline hipError_t hipEventDestroy(hipEvent_t e) { return vp_gpu_destroy(e, 'h'); }
static inline hipError_t hipEventRecord(hipEvent_t e, hipStream_t = 0) { return vp_gpu_record(e, 'h'); }
static inline hipError_t hipEventQuery(hipEvent_t e) { return vp_gpu_query(e, 'h'); }
static inline hipError_t hipEventSynchronize(hipEvent_t e) { return vp_gpu_sync(e, 'h'); }
static inline hipError_t hipEventElapsedTime(float *ms, hipEvent_t a, hipEvent_t b) { return vp_gpu_elapsed(ms, a, b, 'h'); }
static inline hipError_t hipGetLastError() { return 0; }
#endif
