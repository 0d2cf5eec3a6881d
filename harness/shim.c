/* shim.c - compiled together with the library's sources, once per build variant.
   Gives the harness a plain C interface to the macros and inline functions of the public headers. */
#include "neuralnet.h"
#include "neuralnet_predict_batch.h"
#include "optimizer.h"
#include "optimizer_implementations.h"
#include "callback.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include "logger.h"
#include "metrics.h"
#include "loss.h"
#include "activation.h"
#include "evaluate.h"
#include "progress.h"
#include "simd.h"
#include "npy_array.h"
#include "npy_array_list.h"
#ifdef _OPENMP
#include <omp.h>
#endif
#include <string.h>

int      sh_n_layers(neuralnet_t *nn) { return neuralnet_get_n_layers(nn); }
unsigned sh_n_params(neuralnet_t *nn) { return neuralnet_total_n_parameters(nn); }
int      sh_n_in(neuralnet_t *nn, int l) { return nn->layer[l].n_input; }
int      sh_n_out(neuralnet_t *nn, int l) { return nn->layer[l].n_output; }
float   *sh_weight(neuralnet_t *nn, int l) { return nn->layer[l].weight; }
float   *sh_bias(neuralnet_t *nn, int l) { return nn->layer[l].bias; }
const char *sh_act(neuralnet_t *nn, int l) { return get_activation_name(nn->layer[l].activation_func); }
void    *sh_act_ptr(neuralnet_t *nn, int l) { return (void*) nn->layer[l].activation_func; }
void     sh_set_act(neuralnet_t *nn, int l, void (*f)(const int, float*)) { nn->layer[l].activation_func = f; }
int      sh_has_loss(neuralnet_t *nn) { return nn->loss != NULL; }
const char *sh_loss_name(neuralnet_t *nn) { return get_loss_name(nn->loss); }
typedef void (*lossf)(const unsigned int, const float*, const float*, float*);
lossf    sh_get_loss(neuralnet_t *nn) { return nn->loss; }
void     sh_set_loss_fn(neuralnet_t *nn, lossf f) { nn->loss = f; }
#ifdef _OPENMP
void     sh_threads(int n) { omp_set_dynamic(0); omp_set_num_threads(n); }
#else
void     sh_threads(int n) { (void) n; }
#endif
int      sh_align(void) { return ALIGN_SIZE; }
float   *sh_malloc(size_t n) { return simd_malloc(n); }
void     sh_free(float *p) { simd_free(p); }

/* optimizers: kind 0 SGD, 1 RMSprop, 2 adagrad, 3 adam.  Bits of mask tell which settings are given;
   the others keep their defaults.
   v: 0 learning_rate 1 decay 2 momentum 3 nesterov 4 rho 5 beta_1 6 beta_2 7 weight_decay
   gmask: 1 batchsize 2 shuffle 4 metrics 8 progress */
optimizer_t *sh_opt_new(int kind, neuralnet_t *nn, int gmask, int batchsize, int shuffle, metric_func *metrics,
                        void (*progress)(int,int,const char*,...), int mask, const float *v)
{
    optimizer_properties_t p = OPTIMIZER_PROPERTIES();
    if (gmask & 1) p.batchsize = batchsize;
    if (gmask & 2) p.shuffle = shuffle;
    if (gmask & 4) p.metrics = metrics;
    if (gmask & 8) p.progress = progress;
    switch (kind) {
    case 0: { sgd_properties_t q = *SGD_PROPERTIES();
        if (mask & 1) q.learning_rate = v[0];
        if (mask & 2) q.decay = v[1];
        if (mask & 4) q.momentum = v[2];
        if (mask & 8) q.nesterov = v[3] != 0;
        return OPTIMIZER(SGD_new(nn, p, &q)); }
    case 1: { rmsprop_properties_t q = *RMSPROP_PROPERTIES();
        if (mask & 1) q.learning_rate = v[0];
        if (mask & 2) q.decay = v[1];
        if (mask & 4) q.momentum = v[2];
        if (mask & 8) q.nesterov = v[3] != 0;
        if (mask & 16) q.rho = v[4];
        return OPTIMIZER(RMSprop_new(nn, p, &q)); }
    case 2: { adagrad_properties_t q = *ADAGRAD_PROPERTIES();
        if (mask & 1) q.learning_rate = v[0];
        if (mask & 2) q.decay = v[1];
        return OPTIMIZER(adagrad_new(nn, p, &q)); }
    default: { adam_properties_t q = *ADAM_PROPERTIES();
        if (mask & 1) q.learning_rate = v[0];
        if (mask & 32) q.beta_1 = v[5];
        if (mask & 64) q.beta_2 = v[6];
        if (mask & 128) q.weight_decay = v[7];
        return OPTIMIZER(adam_new(nn, p, &q)); }
    }
}
void sh_opt_defaults(float *v, int *batchsize, int *shuffle, int *metrics_null, int *progress_set)
{
    optimizer_properties_t p = OPTIMIZER_PROPERTIES();
    *batchsize = p.batchsize; *shuffle = p.shuffle; *metrics_null = p.metrics == NULL; *progress_set = p.progress == progress_ascii;
    sgd_properties_t s = *SGD_PROPERTIES(); rmsprop_properties_t r = *RMSPROP_PROPERTIES();
    adagrad_properties_t a = *ADAGRAD_PROPERTIES(); adam_properties_t m = *ADAM_PROPERTIES();
    float w[] = { s.learning_rate, s.decay, s.momentum, s.nesterov, r.learning_rate, r.rho, r.decay, r.momentum, r.nesterov,
                  a.learning_rate, a.decay, m.learning_rate, m.beta_1, m.beta_2, m.weight_decay };
    memcpy(v, w, sizeof w);
}
void sh_opt_free(optimizer_t *o) { optimizer_free(o); }
int  sh_opt_n_metrics(optimizer_t *o) { return optimizer_get_n_metrics(o); }
const char *sh_opt_metric_name(optimizer_t *o, int i) { return get_metric_name(o->metrics[i]); }
int  sh_opt_batchsize(optimizer_t *o) { return o->batchsize; }
int  sh_opt_shuffle(optimizer_t *o) { return o->shuffle; }
void sh_opt_set_metrics(optimizer_t *o, metric_func *m) { o->metrics = m; }
void sh_opt_set_progress(optimizer_t *o, void (*progress)(int,int,const char*,...)) { o->progress = progress; }
void sh_opt_set_batchsize(optimizer_t *o, int b) { o->batchsize = b; }

/* callbacks; bits of mask tell which settings are given */
callback_t *sh_es_new(int mask, int patience, int monitor, int greater)
{
    earlystopping_config d = *EARLYSTOPPING_SETTINGS();
    earlystopping_config c = { .patience = mask & 1 ? patience : d.patience, .monitor_idx = mask & 2 ? monitor : d.monitor_idx,
                               .greater_is_better = mask & 4 ? greater != 0 : d.greater_is_better };
    return CALLBACK(earlystopping_new(&c));
}
int sh_es_stop(callback_t *c) { return earlystopping_do_stop(EARLYSTOPPING(c)); }
callback_t *sh_mcp_new(int mask, const char *fn, int monitor, int greater, int verbose)
{
    modelcheckpoint_config d = *MODELCHECKPOINT_SETTINGS();
    modelcheckpoint_config c = { .filename = mask & 1 ? fn : d.filename, .monitor_idx = mask & 2 ? monitor : d.monitor_idx,
                                 .greater_is_better = mask & 4 ? greater != 0 : d.greater_is_better, .verbose = mask & 8 ? verbose != 0 : d.verbose };
    return CALLBACK(modelcheckpoint_new(&c));
}
callback_t *sh_log_new(int mask, int epoch, const char *fn, int no_stdout)
{
    logger_config d = *LOGGER_SETTINGS();
    logger_config c = { .epoch_count = mask & 1 ? epoch : d.epoch_count, .filename = mask & 2 ? fn : d.filename,
                        .no_stdout = mask & 4 ? no_stdout != 0 : d.no_stdout };
    return CALLBACK(logger_new(&c));
}
void sh_cb_run(callback_t *c, optimizer_t *o, const float *r, int has_valid) { callback_run(c, o, r, has_valid != 0); }
void sh_cb_free(callback_t *c) { callback_free(c); }

/* a custom optimizer through the public definition macro: plain SGD with learning rate 0.5, no state of its own */
typedef struct _plain_t plain_t;
struct _plain_t { optimizer_t opt; };
OPTIMIZER_DEFINE(plain, )
static void (*batch_hook)(unsigned,unsigned,unsigned,const float*,unsigned) = NULL;
void sh_set_batch_hook(void (*f)(unsigned,unsigned,unsigned,const float*,unsigned)) { batch_hook = f; }
static void plain_run_epoch(optimizer_t *opt, const unsigned int n, const float *X, const float *Y)
{
    const unsigned int np = neuralnet_total_n_parameters(opt->nn);
    float *g = simd_malloc(np * sizeof(float) + 256);
    for (unsigned int i = 0; i < n; ) {
        const unsigned int from = i;
        optimizer_calc_batch_gradient(opt, n, X, Y, &i, g);
        if (batch_hook) batch_hook(n, from, i, g, np);
        if (opt->progress) opt->progress(i, n, "Train: ");
        for (unsigned int k = 0; k < np; k++) g[k] *= -0.5f;
        neuralnet_update(opt->nn, g);
    }
    simd_free(g);
}
optimizer_t *sh_plain_new(neuralnet_t *nn, int batchsize, int shuffle, metric_func *metrics, void (*progress)(int,int,const char*,...))
{
    return OPTIMIZER(plain_new(nn, OPTIMIZER_PROPERTIES(.batchsize = batchsize, .shuffle = shuffle != 0, .metrics = metrics, .progress = progress), NULL));
}

/* arrays */
npy_array_t *sh_npy_new(int ndim, const size_t *shape, char typechar, size_t elem, char endian, int fortran, const char *data, size_t bytes)
{
    npy_array_t *m = calloc(1, sizeof *m);
    m->ndim = ndim; for (int i = 0; i < ndim && i < 8; i++) m->shape[i] = shape[i];
    m->typechar = typechar; m->elem_size = elem; m->endianness = endian; m->fortran_order = fortran != 0;
    m->data = malloc(bytes ? bytes : 1); memcpy(m->data, data, bytes);
    return m;
}
int sh_npy_ndim(npy_array_t *m) { return m->ndim; }
size_t sh_npy_shape(npy_array_t *m, int i) { return m->shape[i]; }
char sh_npy_type(npy_array_t *m) { return m->typechar; }
char sh_npy_endian(npy_array_t *m) { return m->endianness; }
size_t sh_npy_elem(npy_array_t *m) { return m->elem_size; }
int sh_npy_fortran(npy_array_t *m) { return m->fortran_order; }
char *sh_npy_data(npy_array_t *m) { return m->data; }
npy_array_list_t *sh_list_next(npy_array_list_t *l) { return l->next; }
npy_array_t *sh_list_array(npy_array_list_t *l) { return l->array; }
const char *sh_list_name(npy_array_list_t *l) { return l->filename; }
void sh_list_set_name(npy_array_list_t *l, char *n) { l->filename = n; }
npy_array_t *sh_list_detach(npy_array_list_t *l) { npy_array_t *a = l->array; l->array = NULL; return a; }

/* the convenience macros: kind counts the NPY_DTYPE_... as they are listed in npy_array.h */
#define BUILD_N(f, DT) switch (nd) { \
    case 1: *o = *NPY_ARRAY_BUILDER(data, SHAPE(s[0]), DT, .fortran_order = f); break; \
    case 2: *o = *NPY_ARRAY_BUILDER(data, SHAPE(s[0], s[1]), DT, .fortran_order = f); break; \
    case 3: *o = *NPY_ARRAY_BUILDER(data, SHAPE(s[0], s[1], s[2]), DT, .fortran_order = f); break; \
    case 4: *o = *NPY_ARRAY_BUILDER(data, SHAPE(s[0], s[1], s[2], s[3]), DT, .fortran_order = f); break; \
    case 5: *o = *NPY_ARRAY_BUILDER(data, SHAPE(s[0], s[1], s[2], s[3], s[4]), DT, .fortran_order = f); break; \
    case 6: *o = *NPY_ARRAY_BUILDER(data, SHAPE(s[0], s[1], s[2], s[3], s[4], s[5]), DT, .fortran_order = f); break; \
    case 7: *o = *NPY_ARRAY_BUILDER(data, SHAPE(s[0], s[1], s[2], s[3], s[4], s[5], s[6]), DT, .fortran_order = f); break; \
    case 8: *o = *NPY_ARRAY_BUILDER(data, SHAPE(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7]), DT, .fortran_order = f); break; \
    default: free(o); return NULL; }
npy_array_t *sh_npy_build(int kind, int nd, const size_t *s, int fortran, char *data)
{
    npy_array_t *o = calloc(1, sizeof *o);      /* what it points to stays with the caller */
    switch (kind) {
    case 0: BUILD_N(fortran, NPY_DTYPE_FLOAT16) break;
    case 1: BUILD_N(fortran, NPY_DTYPE_FLOAT32) break;
    case 2: BUILD_N(fortran, NPY_DTYPE_FLOAT64) break;
    case 3: BUILD_N(fortran, NPY_DTYPE_FLOAT128) break;
    case 4: BUILD_N(fortran, NPY_DTYPE_INT8) break;
    case 5: BUILD_N(fortran, NPY_DTYPE_INT16) break;
    case 6: BUILD_N(fortran, NPY_DTYPE_INT32) break;
    case 7: BUILD_N(fortran, NPY_DTYPE_INT64) break;
    case 8: BUILD_N(fortran, NPY_DTYPE_UINT8) break;
    case 9: BUILD_N(fortran, NPY_DTYPE_UINT16) break;
    case 10: BUILD_N(fortran, NPY_DTYPE_UINT32) break;
    case 11: BUILD_N(fortran, NPY_DTYPE_UINT64) break;
    case 12: BUILD_N(fortran, NPY_DTYPE_COMPLEX64) break;
    case 13: BUILD_N(fortran, NPY_DTYPE_COMPLEX128) break;
    case 14: BUILD_N(fortran, NPY_DTYPE_COMPLEX256) break;
    case 15: BUILD_N(fortran, NPY_DTYPE_BOOL) break;
    default: free(o); return NULL;
    }
    return o;
}
/* a list which lives in the caller's memory */
int sh_list_wrapped_save(const char *file, int n, npy_array_t **a, char **names, int compressed)
{
    npy_array_list_t *e = calloc(n, sizeof *e);
    for (int i = 0; i < n; i++) e[i] = (npy_array_list_t) { .array = a[i], .filename = names ? names[i] : NULL, .next = i + 1 < n ? &e[i + 1] : NULL };
    int r = compressed ? npy_array_list_save_compressed(file, e, ZIP_CM_DEFLATE, 0) : npy_array_list_save(file, e);
    for (int i = 0; i < n; i++) if (e[i].array != a[i] || (names && e[i].filename != names[i]) || e[i].next != (i + 1 < n ? &e[i + 1] : NULL)) r = -2;
    if (!names) for (int i = 0; i < n; i++) free(e[i].filename);     /* names were given to them */
    free(e);
    return r;
}

/* ---- what a user would write with the public macros (P27) ---- */
static void (*user_hook)(const char *what, void *self, int tag, const void *a, const void *b, long n, int flag) = NULL;
void sh_user_hook(void (*f)(const char *, void *, int, const void *, const void *, long, int)) { user_hook = f; }
#define TELL(...) do { if (user_hook) user_hook(__VA_ARGS__); } while (0)

OPTIMIZER_DECLARE(own);
typedef struct { float learning_rate; float momentum; int tag; } own_properties_t;
#define OWN_PROPERTIES(...) &((own_properties_t) { .learning_rate = 0.01f, .momentum = 0.0f, .tag = -1, __VA_ARGS__ })
struct _own_t { optimizer_t opt; float learning_rate, momentum; int tag; float *velocity, *grad; };
static void own_free(optimizer_t *o) { own_t *w = (own_t *) o; TELL("free", o, w->tag, NULL, NULL, 0, 0); free(w->velocity); simd_free(w->grad); }
static void own_init(own_t *w, own_properties_t *p)
{
    w->learning_rate = p->learning_rate; w->momentum = p->momentum; w->tag = p->tag;
    w->velocity = calloc(neuralnet_total_n_parameters(w->opt.nn), sizeof(float));
    w->grad = simd_malloc(neuralnet_total_n_parameters(w->opt.nn) * sizeof(float) + 64);
}
OPTIMIZER_DEFINE(own, own_init(newopt, properties); newopt->opt.free = own_free;)
static void own_run_epoch(optimizer_t *o, const unsigned int n, const float *X, const float *Y)
{
    own_t *w = (own_t *) o;
    const unsigned int np = neuralnet_total_n_parameters(o->nn);
    TELL("epoch", o, w->tag, X, Y, n, 0);
    for (unsigned int i = 0; i < n; ) {
        unsigned int from = i;
        optimizer_calc_batch_gradient(o, n, X, Y, &i, w->grad);
        TELL("batch", o, w->tag, NULL, NULL, from, (int) (i - from));
        if (i <= from) break;
        for (unsigned int k = 0; k < np; k++) w->velocity[k] = w->momentum * w->velocity[k] - w->learning_rate * w->grad[k];
        memcpy(w->grad, w->velocity, np * sizeof(float));
        neuralnet_update(o->nn, w->grad);
        if (o->progress) o->progress(i, n, "own %d: ", w->tag);
    }
}
optimizer_t *sh_own_new(neuralnet_t *nn, int gmask, int batchsize, int shuffle, metric_func *metrics, void (*progress)(int,int,const char*,...), float lr, float momentum, int tag)
{
    optimizer_properties_t p = OPTIMIZER_PROPERTIES();
    if (gmask & 1) p.batchsize = batchsize;
    if (gmask & 2) p.shuffle = shuffle != 0;
    if (gmask & 4) p.metrics = metrics;
    if (gmask & 8) p.progress = progress;
    return OPTIMIZER(own_new(nn, p, OWN_PROPERTIES(.learning_rate = lr, .momentum = momentum, .tag = tag)));
}
void *sh_opt_nn(optimizer_t *o) { return o->nn; }
void *sh_opt_progress(optimizer_t *o) { return (void *) o->progress; }
void *sh_opt_metric(optimizer_t *o, int i) { return (void *) o->metrics[i]; }

CALLBACK_DECLARE(watcher);           /* with resources of its own */
typedef struct { int tag; const float *data; int n; } watcher_config;
struct _watcher_t { callback_t cb; int tag, runs; float *copy; };
static void watcher_free(callback_t *c) { watcher_t *w = (watcher_t *) c; TELL("free", c, w->tag, NULL, NULL, w->runs, 0); free(w->copy); free(w); }
CALLBACK_DEFINE(watcher,
    watcher_config *cfg = (watcher_config *) config;
    newcb->tag = cfg->tag; newcb->runs = 0;
    newcb->copy = malloc(cfg->n * sizeof(float) + 1);
    memcpy(newcb->copy, cfg->data, cfg->n * sizeof(float));
    newcb->cb.free = watcher_free;
)
static void watcher_callback_run(callback_t *c, optimizer_t *o, const float *r, bool has) { watcher_t *w = (watcher_t *) c; TELL("run", c, w->tag, o, r, ++w->runs, has); }
CALLBACK_DECLARE(simple);            /* released by the default */
struct _simple_t { callback_t cb; int tag, runs; char filler[100]; };
CALLBACK_DEFINE(simple, newcb->tag = *(int *) config; newcb->runs = 0; memset(newcb->filler, newcb->tag, sizeof newcb->filler);)
static void simple_callback_run(callback_t *c, optimizer_t *o, const float *r, bool has)
{
    simple_t *w = (simple_t *) c;
    for (size_t i = 0; i < sizeof w->filler; i++) if (w->filler[i] != (char) w->tag) TELL("damaged", c, w->tag, NULL, NULL, 0, 0);
    TELL("run", c, w->tag, o, r, ++w->runs, has);
}
callback_t *sh_user_cb(int kind, int tag, const float *data, int n)
{
    watcher_config c = { tag, data, n };
    return kind ? CALLBACK(watcher_new(&c)) : CALLBACK(simple_new(&tag));
}
