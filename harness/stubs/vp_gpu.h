#ifndef VP_GPU_H
#define VP_GPU_H
struct vp_gpu_event;
int vp_gpu_create(vp_gpu_event **e, char kind, unsigned flags);
int vp_gpu_destroy(vp_gpu_event *e, char kind);
int vp_gpu_record(vp_gpu_event *e, char kind);
int vp_gpu_query(vp_gpu_event *e, char kind);
int vp_gpu_sync(vp_gpu_event *e, char kind);
int vp_gpu_elapsed(float *ms, vp_gpu_event *a, vp_gpu_event *b, char kind);
#endif
