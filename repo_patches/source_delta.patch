From 97ab904f632d34c64eb0bbaa6fd7b34e1745b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 01/45] fix: use unaligned SIMD access where the pointers need
 not be aligned

Rows of a batch output, user buffers and the per-layer parts of the gradient
are not aligned to the SIMD width; aligned loads and stores crashed on them.
---
 src/activation.c        | 44 ++++++++++++++++++++---------------------
 src/matrix_operations.c | 24 +++++++++++-----------
 2 files changed, 34 insertions(+), 34 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 90effd3..3b0314e 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -548,8 +548,8 @@ static void tanh_act( const int n, float *y )
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(y + i);
-        YMM1 = _mm256_load_ps(y + i + 8);
+        YMM0 = _mm256_loadu_ps(y + i);
+        YMM1 = _mm256_loadu_ps(y + i + 8);
         YMM0 = _mm256_mul_ps(neg_two, YMM0);
         YMM1 = _mm256_mul_ps(neg_two, YMM1);
         YMM2 = _mm256_add_ps(one, exp256_ps(YMM0));
@@ -558,8 +558,8 @@ static void tanh_act( const int n, float *y )
         YMM3 = _mm256_div_ps(two, YMM3);
         YMM2 = _mm256_add_ps(neg_one, YMM2);
         YMM3 = _mm256_add_ps(neg_one, YMM3);
-        _mm256_store_ps(y + i, YMM2);
-        _mm256_store_ps(y + i + 8, YMM3);
+        _mm256_storeu_ps(y + i, YMM2);
+        _mm256_storeu_ps(y + i + 8, YMM3);
     }
 #endif  /* __AVX2__ */
     for( ; i < n; i++ )
@@ -651,8 +651,8 @@ static void relu_derivative        ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
         
         YMM0 = _mm256_cmp_ps(YMM0, zero, _CMP_LE_OS);
         YMM1 = _mm256_cmp_ps(YMM1, zero, _CMP_LE_OS);
@@ -660,11 +660,11 @@ static void relu_derivative        ( const int n, const float *activation, float
         YMM0 = _mm256_blendv_ps( ones, zero, YMM0);
         YMM1 = _mm256_blendv_ps( ones, zero, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -681,8 +681,8 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM2 = _mm256_sub_ps( ones, YMM0 );
         YMM3 = _mm256_sub_ps( ones, YMM1 );
@@ -690,11 +690,11 @@ static void sigmoid_derivative     ( const int n, const float *activation, float
         YMM0 = _mm256_mul_ps(YMM0, YMM2);
         YMM1 = _mm256_mul_ps(YMM1, YMM3);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for(; i < n; i++ )
@@ -710,8 +710,8 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
     __m256 YMM0, YMM1, YMM2, YMM3;
 
     for (i = 0; i <= ((n)-16); i += 16) {
-        YMM0 = _mm256_load_ps(activation + i);
-        YMM1 = _mm256_load_ps(activation + i + 8);
+        YMM0 = _mm256_loadu_ps(activation + i);
+        YMM1 = _mm256_loadu_ps(activation + i + 8);
 
         YMM0 = _mm256_mul_ps(YMM0, YMM0);
         YMM1 = _mm256_mul_ps(YMM1, YMM1);
@@ -719,11 +719,11 @@ static void tanh_act_derivative    ( const int n, const float *activation, float
         YMM0 = _mm256_sub_ps(ones, YMM0);
         YMM1 = _mm256_sub_ps(ones, YMM1);
 
-        YMM2 = _mm256_load_ps(ar + i);
-        YMM3 = _mm256_load_ps(ar + i + 8);
+        YMM2 = _mm256_loadu_ps(ar + i);
+        YMM3 = _mm256_loadu_ps(ar + i + 8);
 
-        _mm256_store_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
-        _mm256_store_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
+        _mm256_storeu_ps( ar + i,     _mm256_mul_ps( YMM0, YMM2) );
+        _mm256_storeu_ps( ar + i + 8, _mm256_mul_ps( YMM1, YMM3) );
     }
 #endif /* __AVX__ */
     for( ; i < n; i++ )
diff --git a/src/matrix_operations.c b/src/matrix_operations.c
index 21ea4be..e7efbfb 100644
--- a/src/matrix_operations.c
+++ b/src/matrix_operations.c
@@ -49,9 +49,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m512 sums = _mm512_setzero_ps ();
         for (; j <= ((n_cols)-16); j += 16, m_ptr += 16, v_ptr += 16){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr), sums);
+            sums = _mm512_fmadd_ps( _mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr), sums);
 #else
-            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_load_ps(m_ptr)));
+            sums = _mm512_add_ps (sums, _mm512_mul_ps(_mm512_loadu_ps(v_ptr), _mm512_loadu_ps(m_ptr)));
 #endif
         }
         y[i] = _mm512_reduce_add_ps( sums );
@@ -60,9 +60,9 @@ void matrix_vector_multiply( int n_rows, int n_cols, const float *matrix, const
         __m256 sum = _mm256_setzero_ps ();
         for (; j <= ((n_cols)-8); j += 8, m_ptr += 8, v_ptr += 8){ /* Check if faster: unroll w prefetch */
 #if defined(__FMA__)
-            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr), sum);
+            sum = _mm256_fmadd_ps( _mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr), sum);
 #else
-            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_load_ps(m_ptr)));
+            sum = _mm256_add_ps (sum, _mm256_mul_ps(_mm256_loadu_ps(v_ptr), _mm256_loadu_ps(m_ptr)));
 #endif
         }
         y[i] += horizontalsum_avx( sum );
@@ -128,12 +128,12 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 
 #ifdef __AVX512F__
     for (; i <= ((m)-16) ; i += 16, bias_ptr +=16, y_ptr +=16 ){
-        _mm512_store_ps( y_ptr, _mm512_load_ps( bias_ptr ));
+        _mm512_storeu_ps( y_ptr, _mm512_loadu_ps( bias_ptr ));
     }
 #endif
 #ifdef __AVX__
     for (; i <= ((m)-8) ; i += 8, bias_ptr +=8, y_ptr +=8 ){
-        _mm256_store_ps( y_ptr, _mm256_load_ps( bias_ptr ));
+        _mm256_storeu_ps( y_ptr, _mm256_loadu_ps( bias_ptr ));
     }
 #endif
     for( ; i < m; i++ ){
@@ -149,11 +149,11 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 int j = 0;
 #ifdef __AVX512F__
                 for (; j <= ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16) 
-                    _mm512_store_ps(y_ptr, _mm512_add_ps (_mm512_load_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps (_mm512_loadu_ps(y_ptr), _mm512_loadu_ps( weight_ptr )));
 #endif /*  __AVX512F__ */
 #ifdef __AVX__
                 for (; j <= ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8) 
-                    _mm256_store_ps(y_ptr, _mm256_add_ps (_mm256_load_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps (_mm256_loadu_ps(y_ptr), _mm256_loadu_ps( weight_ptr )));
 #endif /*  __AVX__ */
                 for( ; j < m; j++ )
                     *y_ptr++ += *weight_ptr++;
@@ -162,9 +162,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
 #ifdef __AVX512F__
                 for (; j < ((m)-16) ; j += 16, y_ptr += 16, weight_ptr += 16){
 #if defined(__FMA__)
-                    _mm512_store_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_load_ps(y_ptr)));
+                    _mm512_storeu_ps(y_ptr, _mm512_fmadd_ps( _mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp), _mm512_loadu_ps(y_ptr)));
 #else
-                    _mm512_store_ps(y_ptr, _mm512_add_ps(_mm512_load_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
+                    _mm512_storeu_ps(y_ptr, _mm512_add_ps(_mm512_loadu_ps(y_ptr), _mm512_mul_ps(_mm512_loadu_ps(weight_ptr), _mm512_set1_ps(inp))));
 #endif  
                 }
 #endif
@@ -172,9 +172,9 @@ void vector_matrix_multiply( int n, int m, const float *weight, const float *bia
                 __m256 scalevec = _mm256_set1_ps(inp);
                 for (; j < ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8){
 #if defined(__FMA__)
-                    _mm256_store_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_load_ps(y_ptr)));
+                    _mm256_storeu_ps(y_ptr, _mm256_fmadd_ps( _mm256_loadu_ps(weight_ptr), scalevec, _mm256_loadu_ps(y_ptr)));
 #else
-                    _mm256_store_ps(y_ptr, _mm256_add_ps(_mm256_load_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
+                    _mm256_storeu_ps(y_ptr, _mm256_add_ps(_mm256_loadu_ps(y_ptr), _mm256_mul_ps(_mm256_loadu_ps(weight_ptr), scalevec)));
 #endif  
                 }
 #endif
-- 
2.43.0


From b8a672ae88082c654644838ecd73cf06c860bc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 02/45] fix: reduce the batch gradient over the parameters only

The OpenMP reduction ran over a padded length and thereby read and wrote
beyond the caller's gradient buffer.
---
 src/optimizer.c | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 4494ebc..3df147a 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -65,19 +65,6 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    /* There is a bug in OpenMP -- if using reduction on an aligned array, there will be threaded
-       copies of the arrays in each thread. These copies will not necesarrily be aligned, but rather
-       follow the previous in memory. Solving this can be done by padding. I've not seen this documented
-       but it seems to work. Hence this padding. */
-#ifdef __AVX__
-#define PADDING_SIZE 16
-    /* Hmmm.... maybe it doesn't work after all? it doesn't work with PADDING_SIZE=32, but
-       it works with PADDING_SIZE=16... why? Is this really a stable solution? */
-    const unsigned int n_param_padding = n_parameters + (PADDING_SIZE - n_parameters % PADDING_SIZE);
-    assert( (n_param_padding % PADDING_SIZE) == 0);
-#else
-    const unsigned int n_param_padding __attribute__((unused))  = n_parameters;
-#endif
     memset( batchgrad, 0, n_parameters * sizeof(float));  /* Clear the batch grad */
 
     const int n_input  = nn->layer[0].n_input;
@@ -85,7 +72,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_param_padding])
+#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-- 
2.43.0


From 3a75798625ef6509c0556c83346d02954cd49a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 03/45] fix: keep the number of shuffled samples per optimizer

It was a static variable, so a second optimizer for the same number of samples
never got its pivot array, and one for fewer samples overran it.
---
 src/optimizer.c | 5 ++---
 src/optimizer.h | 2 ++
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 3df147a..5c471a7 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -15,9 +15,8 @@
 
 static void prepare_shuffle_pivot( optimizer_t *opt, const unsigned n_train_samples )
 {
-    static unsigned int _n_sample = 0;
-    if ( n_train_samples != _n_sample ){
-        _n_sample = n_train_samples;
+    if ( !opt->pivot || n_train_samples != opt->n_pivot ){
+        opt->n_pivot = n_train_samples;
         opt->pivot = realloc( opt->pivot, n_train_samples * sizeof(unsigned int));
         if ( !opt->pivot ){
             fprintf( stderr, "Cannot allocate pivot array.\n");
diff --git a/src/optimizer.h b/src/optimizer.h
index 7de3202..4a166ee 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -31,6 +31,7 @@ struct _optimizer_t {
     void         (*progress)( int x, int n, const char *fmt, ...);
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
+    unsigned int n_pivot;   /* Number of samples in pivot. Don't touch! */
 };
 
 #if defined(__GNUC__)
@@ -68,6 +69,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
     newopt->opt.metrics    = optconf.metrics;   \
     \
     newopt->opt.pivot      = NULL; /* This will be allocated in the main loop */ \
+    newopt->opt.n_pivot    = 0; \
     \
     __VA_ARGS__ ; \
     optimizer_check_sanity( OPTIMIZER(newopt) ); \
-- 
2.43.0


From 19bbbe7e5268c8ce462a733c6548bf226b1258b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 04/45] fix: do not share the default metric between optimizers

Creating an optimizer for another loss changed the metric of earlier ones.
---
 src/optimizer.c | 7 +++----
 src/optimizer.h | 1 +
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/optimizer.c b/src/optimizer.c
index 5c471a7..aa0188c 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -48,12 +48,11 @@ void optimizer_check_sanity( optimizer_t * opt)
     assert( opt->batchsize > 0 );
 
     /* If the metrics is set to NULL - add the metric function corresponding to the loss */
-    static metric_func static_metrics[2];
-    static_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
-    static_metrics[1] = NULL;
+    opt->default_metrics[0] = get_metric_func( get_loss_name( opt->nn->loss ));
+    opt->default_metrics[1] = NULL;
 
     if( opt->metrics == NULL ){
-        opt->metrics = static_metrics;
+        opt->metrics = opt->default_metrics;
     }
 }
 
diff --git a/src/optimizer.h b/src/optimizer.h
index 4a166ee..99a769f 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -32,6 +32,7 @@ struct _optimizer_t {
     metric_func  *metrics;  /* NULL terminated */
     unsigned int *pivot;    /* Don't touch! */
     unsigned int n_pivot;   /* Number of samples in pivot. Don't touch! */
+    metric_func  default_metrics[2]; /* Used if no metrics are given. Don't touch! */
 };
 
 #if defined(__GNUC__)
-- 
2.43.0


From 0d4e2d6647f880d4aa74d1efe830f45f2dc79f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 05/45] fix: keep Adam's bias correction per optimizer

The powers of the betas were static and hence shared by all Adam optimizers.
---
 src/adam.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/adam.c b/src/adam.c
index be59be0..b93999e 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -23,6 +23,8 @@ struct _adam_t
     float weight_decay;
 
     /* private stuff - don't touch! */
+    float beta_1_corrected;
+    float beta_2_corrected;
     float *r;
     float *s;
 };
@@ -36,6 +38,9 @@ static void adam_optimizer_init( adam_t *adam, adam_properties_t *properties )
     adam->beta_2 = props->beta_2;
     adam->weight_decay = props->weight_decay;
 
+    adam->beta_1_corrected = 1.0f;
+    adam->beta_2_corrected = 1.0f;
+
     const unsigned int n_param = neuralnet_total_n_parameters( OPTIMIZER(adam)->nn );
 
     adam->r   = simd_malloc( n_param * sizeof(float) );
@@ -155,9 +160,6 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
-    static float beta_1_corrected = 1.0f;
-    static float beta_2_corrected = 1.0f;
-
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
@@ -165,8 +167,8 @@ void adam_run_epoch( optimizer_t *opt,
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
-        beta_1_corrected *= adam->beta_1;
-        beta_2_corrected *= adam->beta_2;
+        adam->beta_1_corrected *= adam->beta_1;
+        adam->beta_2_corrected *= adam->beta_2;
 
         #pragma omp parallel sections
         {
@@ -176,7 +178,7 @@ void adam_run_epoch( optimizer_t *opt,
             update_biased_second_moment( n_parameters, adam->r, g, adam->beta_2 );
         }
 
-        compute_update_adam( n_parameters, g, adam->s, adam->r, beta_1_corrected, beta_2_corrected, adam->learning_rate );
+        compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
             float SIMD_ALIGN(weights[n_parameters]);
-- 
2.43.0


From 9ebdec454459b8e0bc2cf07f0029c3d775c708c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 06/45] fix: keep the history of early stopping per callback

Best value and patience counter were static and shared by all instances.
---
 src/earlystopping.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/earlystopping.c b/src/earlystopping.c
index 5ef91b3..19d0fcc 100644
--- a/src/earlystopping.c
+++ b/src/earlystopping.c
@@ -14,6 +14,8 @@ struct _earlystopping_t
     int   monitor_idx;
     bool  greater_is_better;
     bool  early_stopping_flag;
+    float best_so_far;
+    int   epochs_since_improvement;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -23,15 +25,14 @@ CALLBACK_DEFINE(earlystopping,
         newcb->monitor_idx         = cfg->monitor_idx;
         newcb->greater_is_better   = cfg->greater_is_better;
         newcb->early_stopping_flag = false;
+        newcb->best_so_far         = FLT_MAX;
+        newcb->epochs_since_improvement = 0;
 );
 
 void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     earlystopping_t *es = (earlystopping_t*) cb;
 
-    static float best_so_far = FLT_MAX; 
-    static int epochs_since_improvement = 0;
-
     bool improvement = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -42,24 +43,24 @@ void earlystopping_callback_run( callback_t *cb, optimizer_t * opt, const float
 
     float score = epoch_results[idx];
     if (es->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > es->best_so_far || es->best_so_far == FLT_MAX ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < es->best_so_far ){
             improvement = true;
-            best_so_far = score;
+            es->best_so_far = score;
         }
     }
 
     if( improvement ){
-        epochs_since_improvement = 0;
+        es->epochs_since_improvement = 0;
         return;
     }
 
-    epochs_since_improvement++;
-    if ( epochs_since_improvement > es->patience ){
+    es->epochs_since_improvement++;
+    if ( es->epochs_since_improvement > es->patience ){
         es->early_stopping_flag = true;
     }
 
-- 
2.43.0


From b4a49c1bafc165443f5abe036887cc36bbf5d08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 07/45] fix: keep the best value of the model checkpoint per
 callback

It was static and shared by all instances.
---
 src/modelcheckpoint.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 7b470bf..1b9233b 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -18,6 +18,7 @@ struct _modelcheckpoint_t
     int monitor_idx;
     bool greater_is_better;
     bool verbose;
+    float best_so_far;
 };
 
 /* Define and set the defaults. OMG, this is ugly but it is general. */
@@ -27,14 +28,13 @@ CALLBACK_DEFINE(modelcheckpoint,
         newcb->monitor_idx           = cfg->monitor_idx;
         newcb->greater_is_better     = cfg->greater_is_better;
         newcb->verbose               = cfg->verbose;
+        newcb->best_so_far           = FLT_MAX;
 );
 
 void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_results, bool validation_set_given )
 {
     modelcheckpoint_t *mcp = (modelcheckpoint_t*) cb;
 
-    static float best_so_far = FLT_MAX; /* This will fail for greater_is_better */
-
     bool do_save = false;
     /* which index? */
     int n_metrics = optimizer_get_n_metrics( opt );
@@ -45,18 +45,18 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
 
     float score = epoch_results[idx];
     if (mcp->greater_is_better) {
-        if ( score > best_so_far || best_so_far == FLT_MAX ){
+        if ( score > mcp->best_so_far || mcp->best_so_far == FLT_MAX ){
             if( mcp->verbose )  /* BUG: This gives bullshit the first time */
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     } else {
-        if( score < best_so_far ){
+        if( score < mcp->best_so_far ){
             if( mcp->verbose )
-                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", best_so_far, score );
+                printf("Improved from %.4e to %.4e (Saving checkpoint)\n", mcp->best_so_far, score );
             do_save = true;
-            best_so_far = score;
+            mcp->best_so_far = score;
         }
     }
 
-- 
2.43.0


From 6980a13c1b934af141c9ec9eb758f5cd3cadbaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:46 +0000
Subject: [PATCH 08/45] fix: take the checkpoint file name literally

It was used as a printf format without arguments.
---
 src/modelcheckpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modelcheckpoint.c b/src/modelcheckpoint.c
index 1b9233b..5d2e767 100644
--- a/src/modelcheckpoint.c
+++ b/src/modelcheckpoint.c
@@ -61,7 +61,7 @@ void modelcheckpoint_callback_run( callback_t *cb, optimizer_t * opt, const floa
     }
 
     if( do_save )
-        neuralnet_save( opt->nn, mcp->filename ? mcp->filename : "checkpoint.npz");
+        neuralnet_save( opt->nn, "%s", mcp->filename ? mcp->filename : "checkpoint.npz");
     return;
 }
 
-- 
2.43.0


From 31f417ea1a3455df37f1ff25ac0db2e0654de0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 09/45] fix: make room for all metrics in the log line

Four metrics with validation values overran the fixed size line buffer.
---
 src/logger.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 07fb869..d2099f9 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -9,6 +9,7 @@
 #include <time.h>
 #include <assert.h>
 #include <string.h>
+#include <stddef.h>
 #include <unistd.h>
 
 struct _logger_t 
@@ -24,6 +25,7 @@ static int find_last_epoch_from_logfile( logger_t *logger );
 
 #define EPOCH_STR "Epoch"
 #define MAX_BUFFER 255
+#define MAX_METRIC  64   /* Maximum length of the name and the value of one metric */
 /* Define and set the defaults. OMG, this is ugly but it is general. */
 CALLBACK_DEFINE(logger,
         logger_config *cfg = (logger_config*) config;
@@ -66,7 +68,9 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
 {
     logger_t *log = (logger_t*) cb;
 
-    char buffer[MAX_BUFFER + 1];
+    int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
+
+    char buffer[MAX_BUFFER + 1 + 2 * n_metrics * MAX_METRIC];
     char *ptr = buffer;
     time_t rawtime;
     struct tm * timeinfo;
@@ -81,7 +85,6 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
     ptr += sprintf ( ptr, EPOCH_STR " %3d ", log->epoch_count++ );
 
     /* Now the metric values */
-    int n_metrics = optimizer_get_n_metrics( opt ); // * ( 1 + (int)validation_set_given);
     for( int phase = 0; phase <= ((int) validation_set_given); phase++ ){  /* phase 0 -> train error / phase 1: validation error */
         for ( int i = 0; i < n_metrics; i++ ){
             ptr += sprintf ( ptr, "%s%s: %5.5e ", phase == 1 ? "val_" :"", get_metric_name(opt->metrics[i]),
@@ -90,7 +93,7 @@ void logger_callback_run( callback_t *cb, optimizer_t * opt, const float *epoch_
     }
 
     ptr += sprintf(ptr, "\n" );
-    assert( ptr - buffer < MAX_BUFFER );
+    assert( ptr - buffer < (ptrdiff_t) sizeof(buffer) );
 
     /* Print it out */
     if ( !log->no_stdout )
-- 
2.43.0


From 22250b26368712215d3fcb0891ed9d93cafd342c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 10/45] fix: resume the epoch count from any existing log file

An empty file made the logger read before its buffer, a last line without an
epoch dereferenced NULL, and a file with a single line restarted at zero.
---
 src/logger.c | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index d2099f9..8b44015 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -45,21 +45,18 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         FILE *fp = fopen( logger->filename, "r");
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
+        int  last_epoch    = -1;
+        bool start_of_line = true;  /* Lines longer than the buffer come in several pieces */
         char buf[MAX_BUFFER + 1];
-        fseek( fp, -MAX_BUFFER, SEEK_END );
-        size_t len=fread( buf, 1, MAX_BUFFER, fp );
-        fclose(fp);  /* Hurry up and close it */
-        buf[len] = '\0';
-        if( buf[len-1] == '\n' )  /* Dirty trick if the last line is terminated by newline (which it usually is) */
-            buf[len-1] = '\0';
-        char *last_newline = strrchr( buf, '\n' );
-        if ( !last_newline )
-            return logger->epoch_count;
-        char *last_line = last_newline + 1;
-        if( buf[len-1] == '\0' ) /* Fixing up the dirty trick */
-            buf[len-1] = '\n';   /* we are working on a buffer copy anyway so this is not a big deal */
-        char *e_counter = strstr( last_line, EPOCH_STR) + strlen(EPOCH_STR);
-        return atoi( e_counter ) + 1;
+        while( fgets( buf, sizeof(buf), fp ) ){
+            char *e_counter = start_of_line ? strstr( buf, EPOCH_STR ) : NULL;
+            if( e_counter )
+                last_epoch = atoi( e_counter + strlen(EPOCH_STR) );
+            start_of_line = strchr( buf, '\n' ) != NULL;
+        }
+        fclose(fp);
+        if( last_epoch >= 0 )
+            return last_epoch + 1;
     }
     return logger->epoch_count;
 }
-- 
2.43.0


From 30c6f4d8e57773690b2732689ff68e8d26d20020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 11/45] fix: softplus and its derivative for large values

The exponential overflowed: softplus became infinite and its derivative NaN.
---
 src/activation.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 3b0314e..035b3aa 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -576,7 +576,7 @@ static void exponential( const int n, float *ar )
 static void softplus( const int n, float *ar )
 {
     for( int i = 0; i < n; i++ )
-        ar[i] = logf( expf(ar[i]) + 1.0f ) ;
+        ar[i] = fmaxf( ar[i], 0.0f ) + log1pf( expf( -fabsf(ar[i]) )) ;
 }
 
 static void softsign( const int n, float *ar )
@@ -596,10 +596,8 @@ static void hard_sigmoid( const int n, float *ar )
 #ifndef PREDICTION_ONLY
 static void softplus_derivative    ( const int n, const float *activation, float *ar )
 {
-    for( int i=0; i < n; i++ ){
-        float x =  expf( activation[i] );
-        ar[i] *= (x - 1.0f) / x; 
-    }
+    for( int i=0; i < n; i++ )
+        ar[i] *= -expm1f( -activation[i] );
 }
 
 static void softsign_derivative    ( const int n, const float *activation, float *ar )
-- 
2.43.0


From c134a7a445cf4bb0b120132b66f89a4ad1a0f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 12/45] fix: mean absolute percentage error for negative
 targets

The percentage is of the magnitude of the target; negative targets were
treated like zero.
---
 src/loss.c    | 2 +-
 src/metrics.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/loss.c b/src/loss.c
index 880d253..1ba4d07 100644
--- a/src/loss.c
+++ b/src/loss.c
@@ -76,7 +76,7 @@ static void mean_absolute_error( unsigned int n, const float *y_pred, const floa
 static void mean_absolute_percentage_error( unsigned int n, const float *y_pred, const float *y_real, float *loss )
 {
     for( unsigned int i = 0; i < n; i++ )
-        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmax(y_real[i], 1e-7f) * (float) n);
+        loss[i] = (y_pred[i] >= y_real[i] ? 100.0f : -100.0f) / (fmax(fabsf(y_real[i]), 1e-7f) * (float) n);
 }
 
 static void categorical_crossentropy( unsigned int n, const float *y_pred, const float *y_real, float *loss )
diff --git a/src/metrics.c b/src/metrics.c
index d1b286e..b3cbf57 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -87,7 +87,7 @@ static float mean_absolute_percentage_error(const int n, const float *y_pred, co
 {
     float diff = 0.0f;
     for( int i = 0; i < n; i++ )
-        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( y_real[i], epsilon ));
+        diff += fabsf( (y_real[i] - y_pred[i]) / fmaxf( fabsf( y_real[i] ), epsilon ));
 
     return 100.0f * diff / (float) n;
 }
-- 
2.43.0


From 549c4199d634d7f49058cf2436ce2bf11b4c8658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 13/45] fix: clip predictions in binary_accuracy like the
 targets

A prediction beyond 1.5 counted as wrong for the target 1.
---
 src/metrics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/metrics.c b/src/metrics.c
index b3cbf57..6f8c19a 100644
--- a/src/metrics.c
+++ b/src/metrics.c
@@ -128,7 +128,7 @@ static float binary_accuracy( const int n, const float *y_pred, const float *y_r
     float sum = 0.0f;
     for( int i = 0; i < n; i++ ){
         float real = roundf(fmin( fmax( y_real[i], 0.0f ) , 1.0f ));
-        float pred = roundf( y_pred[i] );
+        float pred = roundf(fmin( fmax( y_pred[i], 0.0f ) , 1.0f ));
         sum += real == pred ? 1.0f : 0.0f;
     }
     return sum / n;
-- 
2.43.0


From cb3c35255d90b16bd3e8381fdd466873707cf78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 14/45] fix: never draw NaN as initial weight

Two zero uniform numbers in a row gave log(0)/0 in the polar method.
---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 0106850..96cff9c 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -706,7 +706,7 @@ static float random_normal()
             v = random_uniform();  /* from -1 to +1 */
 
             S = u*u + v*v;
-        } while (S >= 1.0f);
+        } while (S >= 1.0f || S == 0.0f);
 
         fac = sqrtf( -2.0f * logf(S) / S );
         Z = u * fac;
-- 
2.43.0


From 491ad04a9a9048d1b650d8d9510b298a454b1e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:33 +0000
Subject: [PATCH 15/45] fix: do not free custom optimizers twice

The default free method freed the optimizer, and so did optimizer_free().
---
 src/optimizer.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimizer.h b/src/optimizer.h
index 99a769f..7404775 100644
--- a/src/optimizer.h
+++ b/src/optimizer.h
@@ -60,7 +60,7 @@ DLLEXPORT name ## _t * name ## _new( neuralnet_t *nn, optimizer_properties_t opt
         return NULL; \
     } \
     newopt->opt.run_epoch = name ## _run_epoch; \
-    newopt->opt.free = (void(*)(optimizer_t*)) free; \
+    newopt->opt.free = NULL; /* Only set this if there is more to free than the optimizer itself */ \
     \
     /* First the configs */ \
     newopt->opt.nn         = nn; \
@@ -128,7 +128,8 @@ void optimizer_check_sanity( optimizer_t * opt);
 
 static inline void optimizer_free( optimizer_t *opt )
 {
-    opt->free( opt );
+    if ( opt->free )
+        opt->free( opt );
     if ( opt->pivot )
         free( opt->pivot );
     free( opt );
-- 
2.43.0


From 3c42fe8963e6d328b1c79d1c7efb87a964c39d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 16/45] fix: read the npy header length as unsigned bytes

Bytes of 128 and above were sign extended, so headers of such lengths could
not be read and their maps were released with a wrong length.
---
 npy_array/npy_array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index b8f3cf9..7695902 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -156,14 +156,14 @@ static inline char endianness(){
 /* consider if this function should be exported to the end user */
 npy_array_t * _read_matrix( void *fp, reader_func read_func )
 {
-    char fixed_header[NPY_ARRAY_PREHEADER_LENGTH + 1];
+    unsigned char fixed_header[NPY_ARRAY_PREHEADER_LENGTH + 1];
     size_t chk = read_func( fp, fixed_header, NPY_ARRAY_PREHEADER_LENGTH );
     if( chk != NPY_ARRAY_PREHEADER_LENGTH ){
         fprintf(stderr, "Cannot read pre header bytes.\n");
         return NULL;
     }
     for( int i = 0; i < NPY_ARRAY_MAGIC_LENGTH; i++ ){
-        static char magic[] = NPY_ARRAY_MAGIC_STRING;
+        static unsigned char magic[] = NPY_ARRAY_MAGIC_STRING;
         if( magic[i] != fixed_header[i] ){
             fprintf(stderr,"File format not recognised as numpy array.\n");
             return NULL;
@@ -386,7 +386,7 @@ void npy_array_free( npy_array_t *m )
         /* We need the length of the data mapped. We are mapping the whole file, so we have to
            recalculate the size.  */
         uint16_t header_length = 0;
-        char *preheader = m->map_addr;
+        unsigned char *preheader = m->map_addr;
         header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_LOW_IDX];
         header_length |= preheader[NPY_ARRAY_HEADER_LENGTH_HIGH_IDX] << 8;
 
-- 
2.43.0


From a4e3c52d7f0e12e2f6cf32301c959b7ea6cfa848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 17/45] fix: empty arrays have no elements

A zero in the shape ended the product, so empty arrays could not be loaded and
saving them read beyond their data; the eighth dimension ran into the next
field.
---
 npy_array/npy_array.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 7695902..fecaf36 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -136,7 +136,7 @@ size_t npy_array_calculate_datasize( const npy_array_t *m )
 {
     size_t n_elements = 1;
     int idx = 0;
-    while ( m->shape[ idx ] > 0 && (idx < m->ndim) )
+    while ( idx < m->ndim )
         n_elements *= m->shape[ idx++ ];
     return n_elements * m->elem_size;
 }
@@ -243,7 +243,7 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     size_t n_elements = 1;
     int idx = 0;
-    while ( m->shape[ idx ] > 0 )
+    while ( idx < m->ndim )
         n_elements *= m->shape[ idx++ ];
 
 #if VERBOSE
@@ -257,7 +257,7 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
         return m;
     }
 
-    m->data = malloc( n_elements * m->elem_size );
+    m->data = malloc( n_elements > 0 ? n_elements * m->elem_size : 1 );
     if ( !m->data ){
         fprintf(stderr, "Cannot allocate memory for matrix data.\n");
         free( m );
-- 
2.43.0


From eaa575765b304097750875f52fbca7534e293478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 18/45] fix: refuse malformed npy headers instead of aborting

Missing keys, a bad element size or too many dimensions hit an assertion, and
an unterminated shape was read beyond the header.
---
 npy_array/npy_array.c | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index fecaf36..c0c323c 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -200,7 +200,11 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     }
 
     char *descr   = find_header_item("'descr': '", header);
-    assert(descr);
+    if ( !descr || strlen( descr ) < 3 ){
+        fprintf(stderr, "No valid element description in header.\n");
+        free( m );
+        return NULL;
+    }
     if ( strchr("<>|", descr[0] ) ){
         m->endianness = descr[0];
         if( descr[0] != '|' && ( descr[0] != endianness())){
@@ -214,12 +218,21 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->typechar = descr[1];
 
     /* FIXME: Check the **endptr (second argument which is still NULL here)*/
-    m->elem_size = (size_t) strtoll( &descr[2], NULL, 10);
-    assert( m->elem_size > 0 );
+    long long elem_size = strtoll( &descr[2], NULL, 10);
+    if ( elem_size <= 0 ){
+        fprintf(stderr, "No valid element size in header.\n");
+        free( m );
+        return NULL;
+    }
+    m->elem_size = (size_t) elem_size;
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *fortran = find_header_item("'fortran_order': ", header);
-    assert( fortran );
+    if( !fortran ){
+        fprintf(stderr, "No matrix order in header.\n");
+        free( m );
+        return NULL;
+    }
 
     if(strncmp(fortran, "True", 4) == 0 )
         m->fortran_order = true;
@@ -230,15 +243,23 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     /* FIXME: This only works if there is one and only one leading spaces. */
     char *shape   = find_header_item("'shape': ", header);
-    assert(shape);
-    while (*shape != ')' ) {
-        if( !isdigit( (int) *shape ) ){
+    while ( shape && *shape && *shape != ')' ) {
+        if( !isdigit( (unsigned char) *shape ) ){
             shape++;
             continue;
         }
+        if( m->ndim == NPY_ARRAY_MAX_DIMENSIONS ){
+            fprintf(stderr, "Too many dimensions. At most %d are supported.\n", NPY_ARRAY_MAX_DIMENSIONS );
+            free( m );
+            return NULL;
+        }
         m->shape[m->ndim] = strtol( shape, &shape, 10);
         m->ndim++;
-        assert( m->ndim < NPY_ARRAY_MAX_DIMENSIONS );
+    }
+    if( !shape || *shape != ')' ){
+        fprintf(stderr, "No valid shape in header.\n");
+        free( m );
+        return NULL;
     }
 
     size_t n_elements = 1;
-- 
2.43.0


From aa44a7190cb27399d1fc5aa4b38092676820180d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 19/45] fix: refuse npy shapes whose size overflows

The wrapped product made an array with less data than its shape announces.
---
 npy_array/npy_array.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index c0c323c..54dfc44 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -264,8 +264,15 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
 
     size_t n_elements = 1;
     int idx = 0;
-    while ( idx < m->ndim )
-        n_elements *= m->shape[ idx++ ];
+    while ( idx < m->ndim ){
+        const size_t dim = m->shape[ idx++ ];
+        if( dim > 0 && n_elements > SIZE_MAX / m->elem_size / dim ){
+            fprintf(stderr, "The size of the matrix is out of range.\n");
+            free( m );
+            return NULL;
+        }
+        n_elements *= dim;
+    }
 
 #if VERBOSE
     printf("Number of elements: %llu\n", (unsigned long long) n_elements );
-- 
2.43.0


From 5ef6d57b69c7290ad4f2fb137aa89d370f3e364f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 20/45] fix: refuse to map truncated npy files

Short reads from a map were not noticed, and the data could end beyond the file.
---
 npy_array/npy_array.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 54dfc44..00ce42f 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -280,6 +280,11 @@ npy_array_t * _read_matrix( void *fp, reader_func read_func )
     m->map_addr = NULL;
     if( read_func == read_mapped ){
         map_handler_t *mh = (map_handler_t*) fp;
+        if( mh->length - (size_t) (mh->current_pos - mh->start_pos) < n_elements * m->elem_size ){
+            fprintf(stderr, "Could not map all data.\n");
+            free( m );
+            return NULL;
+        }
         m->data = mh->current_pos;
         m->map_addr = mh->start_pos;
         return m;
@@ -327,7 +332,7 @@ static int64_t read_mapped( void *map, void *buffer, uint64_t nbytes )
     size_t bytes_to_read = bytes_left > nbytes ? nbytes : bytes_left;
     memcpy( buffer, mh->current_pos, bytes_to_read );
     mh->current_pos += bytes_to_read;
-    return (int64_t) nbytes;
+    return (int64_t) bytes_to_read;
 }
 
 npy_array_t * npy_array_mmap( const char *filename )
-- 
2.43.0


From 4f0945d07b8edb0123a36bff9552210629e38257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:30 +0000
Subject: [PATCH 21/45] fix: write and print dimensions beyond the range of int

They were truncated to int; printing a scalar read before the shape.
---
 npy_array/npy_array.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 00ce42f..e52290e 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -97,7 +97,7 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
     char *ptr = shape;
 
     for( int i = 0; i < m->ndim; i++)
-        ptr += sprintf(ptr, "%d,", (int) m->shape[i]);
+        ptr += sprintf(ptr, "%zu,", m->shape[i]);
     assert( ptr - shape < NPY_ARRAY_SHAPE_BUFSIZE );
 
     /* Potential bug? There are some additional whitespaces after the dictionaries saved from
@@ -370,8 +370,9 @@ void npy_array_dump( const npy_array_t *m )
     }
     printf("Dimensions   : %d\n", m->ndim);
     printf("Shape        : ( ");
-    for( int i = 0; i < m->ndim - 1; i++) printf("%d, ", (int) m->shape[i]);
-    printf("%d )\n", (int) m->shape[m->ndim-1]);
+    for( int i = 0; i < m->ndim - 1; i++) printf("%zu, ", m->shape[i]);
+    if( m->ndim > 0 ) printf("%zu ", m->shape[m->ndim-1]);
+    printf(")\n");
     printf("Type         : '%c' ", m->typechar);
     printf("(%d bytes each element)\n", (int) m->elem_size);
     printf("Fortran order: %s\n", m->fortran_order ? "True" : "False" );
-- 
2.43.0


From 1785196e04f942fe2d1000ddd05f42561bad90fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 22/45] fix: take the entry names of a loaded archive literally

They were used as printf formats, and names of more than 80 characters aborted
the program.
---
 npy_array/npy_array_list.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 73663fa..18ba4bf 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -220,7 +220,22 @@ npy_array_list_t * npy_array_list_load( const char *filename )
             fprintf(stderr, "Warning: Cannot read matrix.\n");
             continue;
         }
-        list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));
+        /* The name is neither a format nor limited in length here */
+        const char *name = zip_get_name( zip, i, 0 );
+        size_t len = name ? strlen( name ) : 0;
+        npy_array_list_t *new_list = npy_array_list_new();
+        if( new_list )
+            new_list->filename = calloc( len + 1, sizeof(char) );
+        if( !new_list || !new_list->filename ){
+            fprintf(stderr, "Warning: Cannot allocate memory for list element.\n");
+            npy_array_free( arr );
+            free( new_list );
+            continue;
+        }
+        if( name )
+            memcpy( new_list->filename, name, len );
+        new_list->array = arr;
+        list = _list_append( list, new_list );
     }
 
     zip_close(zip);
-- 
2.43.0


From 6287c12386ef2c91a5c89332bd4540f3b981b7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 23/45] fix: do not abort on too long array names

The warning says that the name is too long; the list is returned unchanged.
---
 npy_array/npy_array_list.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 18ba4bf..8e3f3bb 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -76,13 +76,13 @@ static char * _va_args_filename( const char *filename, va_list ap1 )
      
     va_copy( ap2, ap1); 
     len = vsnprintf( NULL, 0, filename, ap1 );
-    va_end( ap1 );
 
     if( len > MAX_FILENAME_LEN ){
         /* If someone is trying to cook up a special filename that can contain executable code, I think it is wise
            to limit the length of the filename */
         fprintf( stderr, "Warning: Cannot save numpy array. Your filename is too long."
                 " Please limit the filename to %d characters.\n", MAX_FILENAME_LEN );
+        va_end( ap2 );
         return NULL;
     }
 
@@ -124,8 +124,11 @@ npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t
     va_list ap1; \
     va_start( ap1, filename ); \
     new_list->filename = _va_args_filename( filename, ap1 ); \
-    assert( new_list->filename ); \
     va_end( ap1 ); \
+    if ( !new_list->filename ) { \
+        free( new_list ); \
+        return list; \
+    } \
 \
     return _list_ ##oper ( list, new_list ); \
 } 
-- 
2.43.0


From d8f5cf13978761484ab276e5532f2f135c718384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 24/45] fix: apply the requested compression to archive entries

It was set before the entry existed, which has no effect.
---
 npy_array/npy_array_list.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 8e3f3bb..cc3dfe4 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -162,9 +162,6 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
-        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
-            /* what is wrong? */
-        }
         /* if the filename is not set, set one. However.. if the list was created with append and prepend,
          * this will never be true. */
         if(!iter->filename)
@@ -190,6 +187,10 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         if( idx != n )
             fprintf( stderr, "Warning: Index and counter mismatch.");
 
+        if ( zip_set_file_compression(zip, n, comp, comp_flags) < 0){
+            fprintf( stderr, "Warning: Cannot set compression: %s\n", zip_strerror( zip ));
+        }
+
         // fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
         
         n++;
-- 
2.43.0


From f5ffcaf7e1780f215ab43d723e32e42099f97e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:14 +0000
Subject: [PATCH 25/45] fix: report archives that cannot be written

An archive that could not be opened aborted the program; one that could not be
written was leaked and counted as saved, as were entries that were refused.
---
 npy_array/npy_array_list.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index cc3dfe4..6919de5 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -158,7 +158,10 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
 
     /* FIXME: Better test */
     zip_t *zip = zip_open( filename, ZIP_CREATE | ZIP_TRUNCATE, NULL );
-    assert( zip );
+    if( !zip ){
+        fprintf( stderr, "Cannot open '%s' for writing.\n", filename );
+        return 0;
+    }
 
     int n = 0;
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
@@ -184,6 +187,11 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         assert(s); 
 
         int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
+        if( idx < 0 ){
+            fprintf( stderr, "Warning: Cannot save '%s': %s\n", iter->filename, zip_strerror( zip ));
+            zip_source_free( s );
+            continue;
+        }
         if( idx != n )
             fprintf( stderr, "Warning: Index and counter mismatch.");
 
@@ -198,6 +206,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     if ( zip_close( zip ) < 0 ){
         fprintf(stderr, "What? no close?\n");
         fprintf(stderr, "Error: %s\n", zip_strerror( zip ));
+        zip_discard( zip );
+        return 0;
     }
     return n;
 }
-- 
2.43.0


From d5c6ed541f809cdadc5193822a14cf5344090076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 26/45] fix: do not free uninitialised pointers when out of
 memory

The layers' pointers were not set when the allocation of an earlier one failed.
---
 src/neuralnet.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 96cff9c..76efca9 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -647,7 +647,7 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
 
     nn->n_layers = n_layers;
     /* The layers vector is also nice to do unaligned */
-    nn->layer = malloc( n_layers * sizeof( layer_t ));
+    nn->layer = calloc( n_layers, sizeof( layer_t ));
     if ( !(nn->layer)){
         fprintf( stderr, "Cannot allocate memory for neural neworks layers.\n");
         free( nn );
-- 
2.43.0


From 0f0b4014d15689dc877cc80f5b0536ab6d88eb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:03 +0000
Subject: [PATCH 27/45] fix: refuse layers with more weights than an int can
 count

The overflowing product made a layer with too little memory for its weights.
---
 src/neuralnet.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 76efca9..2c559fe 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -18,6 +18,7 @@
 #include <stdarg.h>
 #include <stdbool.h>
 #include <math.h>
+#include <limits.h>
 #include <assert.h>
 
 #if defined(VERBOSE) 
@@ -71,6 +72,10 @@ static bool _weights_memory_allocate( neuralnet_t *nn )
             fprintf( stderr, "Bad neural network dimensions. Can't allocate memory\n" );
             return false;
         }
+        if( nn->layer[i].n_input > INT_MAX / nn->layer[i].n_output ){
+            fprintf( stderr, "Too big neural network dimensions. Can't allocate memory\n" );
+            return false;
+        }
     }
 
     for ( int i = 0; i < nn->n_layers; i++ ){
-- 
2.43.0


From 103f9895877272103a36170c64790f99aff80318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 28/45] fix: refuse model files whose arrays do not describe a
 network

Sizes that do not match overran the parameters of the network, other element
types and byte orders were read as garbage, and missing arrays or names or
column-major order crashed.
---
 src/neuralnet.c | 65 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index 2c559fe..bac9f58 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -113,6 +113,40 @@ static char ** _activation_names_from_npy( npy_array_t *m )
     return ret;
 }
 
+/* Check that the arrays read from a file describe one neural network. */
+static bool _arrays_are_consistent( int n_arrays, npy_array_t *weights_and_biases[], const npy_array_t *activations )
+{
+    if( n_arrays < 2 || n_arrays % 2 != 0 ){
+        fprintf( stderr, "There should be one weight and one bias array for each layer. Found %d arrays.\n", n_arrays );
+        return false;
+    }
+    if( !activations || activations->ndim != 1 || activations->shape[0] != (size_t) n_arrays / 2 ){
+        fprintf( stderr, "There should be one activation name for each layer.\n" );
+        return false;
+    }
+    const int  one = 1;
+    const char foreign_endianness = *(const char*) &one == 1 ? '>' : '<';
+    for( int i = 0; i < n_arrays; i++ ){
+        const npy_array_t *m = weights_and_biases[i];
+        if( m->elem_size != sizeof(float) || m->endianness == foreign_endianness || m->fortran_order ){
+            fprintf( stderr, "The parameters in layer %d are not C ordered 'float32' of this system.\n", i / 2 );
+            return false;
+        }
+        /* The weights are 2-dimensional, and the bias is 1-dimensional */
+        if( m->ndim != 2 - i % 2 || m->shape[0] < 1 || m->shape[0] > INT_MAX
+                || ( i % 2 == 0 && ( m->shape[1] < 1 || m->shape[1] > INT_MAX ))){
+            fprintf( stderr, "Bad dimensions of the parameters in layer %d.\n", i / 2 );
+            return false;
+        }
+        /* A bias has the size of the output of its layer, and so have the inputs of the next layer. */
+        if( i > 0 && m->shape[0] != weights_and_biases[ (i - 1) / 2 * 2 ]->shape[1] ){
+            fprintf( stderr, "The sizes of the parameters in layer %d do not match.\n", i / 2 );
+            return false;
+        }
+    }
+    return true;
+}
+
 /**
   @brief Create a new neural network based on specifications in file.
   @param filename Filename to neural network file.
@@ -123,6 +157,7 @@ neuralnet_t *neuralnet_load( const char *filename)
     npy_array_list_t  *array_list          = NULL;
     npy_array_t      **weights_and_biases  = NULL;
     char             **activation_funcs    = NULL;
+    npy_array_t       *activations         = NULL;
     int                wb_idx              = 0;
     neuralnet_t       *nn                  = NULL;
 
@@ -146,15 +181,19 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *m = iter->array;
         if( m->typechar == 'f' )
             weights_and_biases[wb_idx++] = m;
-        else if( m->typechar == 'S' )
-            activation_funcs = _activation_names_from_npy( m );
+        else if( m->typechar == 'S' && !activations )
+            activations = m;
         else {
             fprintf( stderr, "Element type of numpy array is neither 'float32' or ascii charaters. Cannot open file '%s'.\n", filename );
             goto load_error;
         }
     }
 
-    assert( (wb_idx % 2) == 0 );  /* There should be one weight and one bias npy arrays for each layer. This should hence be even. */
+    if( !_arrays_are_consistent( wb_idx, weights_and_biases, activations )){
+        fprintf( stderr, "Cannot create a neural network from file '%s'.\n", filename );
+        goto load_error;
+    }
+    activation_funcs = _activation_names_from_npy( activations );
 
     int n_layers = wb_idx / 2;
     {  /* An added scope to please 'goto' */
@@ -178,22 +217,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         npy_array_t *weights   = weights_and_biases[i*2];
         npy_array_t *bias      = weights_and_biases[i*2+1];
 
-        /* Some basic checks, but just warnings. */
-        if( weights->ndim != 2 )
-            fprintf(stderr, "WARNING: weight npy array not 2-dimensional in layer %d (It's %dD!)\n", i, weights->ndim);
-        if( bias->ndim != 1 )
-            fprintf(stderr, "WARNING: bias npy array not 1-dimensional in layer %d (It's %dD!)\n", i, bias->ndim);
-        if( weights->shape[1] != bias->shape[0] )
-            fprintf(stderr, "WARNING: bias size does not match weight size in layer %d. Weight: (%ld,%ld) Bias (%ld)\n",
-                    i, weights->shape[0], weights->shape[1], bias->shape[0]);
-        if( i > 0 ){
-            if( weights->shape[0] != weights_and_biases[(i-1)*2]->shape[1] ){
-                fprintf( stderr, "WARNING: weight size mismatch between layer %d and %d.", (i-1), i );
-                fprintf( stderr, "* Prev layer output size: %ld\n", weights_and_biases[(i-1)*2]->shape[1] ); 
-                fprintf( stderr, "* This layer  input size: %ld\n", weights->shape[0] ); 
-            }
-        }
-
         memcpy( nn->layer[i].weight, weights->data, weights->shape[0] * weights->shape[1] * sizeof(float));
         /* Debug 
         print_matrix( weights->shape[0], weights->shape[1], (float*) weights->data );
@@ -201,10 +224,6 @@ neuralnet_t *neuralnet_load( const char *filename)
         */
         memset( nn->layer[i].bias, 0,   nn->layer[i].n_output * sizeof(float));
         memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));
-        /* FIXME in far future: If the matrices are fortran order, reorganize them. Hmmm ... maybe
-         * such feature belong in npy_array? */ 
-        assert( weights->fortran_order == false );
-        assert( bias->fortran_order == false );
     }
 
 load_error:
-- 
2.43.0


From 48c8a4a50073710c4b184fc6960ad68830d85444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 29/45] fix: make room for the derivative's name of any custom
 activation

Symbols of more than 244 characters overran the buffer.
---
 src/activation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/activation.c b/src/activation.c
index 035b3aa..aaf6b5c 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -123,7 +123,7 @@ static activation_func get_activation_func_dynamic( const char *name )
         return NULL;
     }
     activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[256];
+    char derivative_symbol[strlen( symbol ) + sizeof( "_derivative" )];
     sprintf(derivative_symbol, "%s_derivative", symbol );
     free( file_and_symbol_name );
     char * error_message = dlerror();
-- 
2.43.0


From 1d2b870a1ac095ffcb01657e1e2af9e3b6321894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 30/45] fix: batch prediction with BLAS of more outputs than
 the work memory holds

A single sample recursed forever, and the size of the work memory overflowed.
---
 src/neuralnet_predict_batch.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index 6b52cc7..ac79800 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -44,7 +44,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const float *inputs, float *output )
 {
     /* Make some work memory on stack. First calculate how much we need. */
-    int workmem_sz = 0;
+    size_t workmem_sz = 0;
     for( int i = 0; i < nn->n_layers; i++)
         workmem_sz += nn->layer[i].n_output;
     workmem_sz *= n_samples;  /* This size is also in floats */
@@ -56,6 +56,10 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
 #endif
 
     if( N_STACK_ALLOC_FLOATS < workmem_sz ){
+        if( n_samples == 1 ){  /* Cannot be split, so don't do it as a batch */
+            neuralnet_predict( nn, inputs, output );
+            return;
+        }
         int half = n_samples >> 1;
         const int n_inputs = nn->layer[0].n_input;
         const int n_output = nn->layer[nn->n_layers-1].n_output;
-- 
2.43.0


From 1bf53e485a85c4ee80305ee85a3d359599c7604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:48 +0000
Subject: [PATCH 31/45] fix: do not put the predictions of a whole data set on
 the stack

Evaluating a big data set with BLAS overflowed it.
---
 src/evaluate.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 1515c8e..d175d3d 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -6,6 +6,8 @@
 #include "neuralnet_predict_batch.h"
 #include "simd.h"
 #include <string.h>
+#include <stdlib.h>
+#include <stdio.h>
 
 #include <omp.h>
 
@@ -26,8 +28,11 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     float local_results[n_metrics];
     memset( local_results, 0, n_metrics * sizeof(float));
 #ifdef USE_CBLAS
-    float predictions[ n_output * n_valid_samples ];
-    memset( predictions, 0, n_output * n_valid_samples * sizeof(float));
+    float *predictions = calloc( (size_t) n_output * n_valid_samples, sizeof(float));
+    if( !predictions ){
+        fprintf( stderr, "Cannot allocate memory for predictions.\n" );
+        return;
+    }
     neuralnet_predict_batch( nn, n_valid_samples, valid_X, predictions);
 #endif
     #pragma omp parallel for reduction(+:local_results[:])
@@ -45,6 +50,10 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
         }
     }
 
+#ifdef USE_CBLAS
+    free( predictions );
+#endif
+
     float *res = results;
     for ( int i = 0; i < n_metrics; i++ )
         *res++ = local_results[i] / (float) n_valid_samples;
-- 
2.43.0


From 23971aae7a0b3df9611acb3978b6627fb42b2340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:46 +0000
Subject: [PATCH 32/45] fix: index data sets of more than INT_MAX values

---
 src/evaluate.c                | 6 +++---
 src/neuralnet_predict_batch.c | 4 ++--
 src/optimizer.c               | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index d175d3d..319ebaa 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -38,14 +38,14 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     #pragma omp parallel for reduction(+:local_results[:])
     for ( int i = 0; i < n_valid_samples; i++ ){
 #ifdef USE_CBLAS
-        float *y_pred = predictions + (i*n_output);
+        float *y_pred = predictions + ((size_t) i*n_output);
 #else
         SIMD_ALIGN(float y_pred[n_output]);
-        neuralnet_predict( nn, valid_X + (i*n_input), y_pred );
+        neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
 #endif
         float *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
-            float _error = metrics[j]( n_output, y_pred, valid_Y + (i*n_output));
+            float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
             *res++ += _error;
         }
     }
diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index ac79800..de9a0f5 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -23,7 +23,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
     const int n_output = nn->layer[nn->n_layers-1].n_output;
 #pragma omp parallel for
     for ( int i = 0; i < n_samples; i++ )
-        neuralnet_predict( nn, inputs + i*n_inputs, output + i*n_output);
+        neuralnet_predict( nn, inputs + (size_t) i*n_inputs, output + (size_t) i*n_output);
 }
 #else
 /* This number depends on your system - how much memory do you want to stack allocate?
@@ -65,7 +65,7 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
         const int n_output = nn->layer[nn->n_layers-1].n_output;
         // fprintf(stderr, "Warning: Stack limit reached with %d samples - recursing.\n", n_samples);
         neuralnet_predict_batch( nn, half, inputs, output );
-        neuralnet_predict_batch( nn, n_samples - half, inputs+(half*n_inputs), output+(half*n_output) );
+        neuralnet_predict_batch( nn, n_samples - half, inputs+((size_t) half*n_inputs), output+((size_t) half*n_output) );
         return;    
     }
 
diff --git a/src/optimizer.c b/src/optimizer.c
index aa0188c..e16af63 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -74,7 +74,7 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
     for ( int b = 0 ; b < batchsize; b++){
         const int idx = *i + b;
         float SIMD_ALIGN(grad[n_parameters]);
-        neuralnet_backpropagation( nn, train_X + (opt->pivot[idx] * n_input), train_Y + (opt->pivot[idx] * n_output), grad );
+        neuralnet_backpropagation( nn, train_X + ((size_t) opt->pivot[idx] * n_input), train_Y + ((size_t) opt->pivot[idx] * n_output), grad );
         /* When using OpenMP, OpenMP will not align stack allocated arrays -- we therefore
            have to use `_unaligned` for this accumulation. :-(  */
         vector_accumulate_unaligned( n_parameters, batchgrad, grad );
-- 
2.43.0


From 95cf7f14d8ed1c196d54dfc6b2bae62682305e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:06 +0000
Subject: [PATCH 33/45] fix: batch prediction with BLAS applies custom
 activations sample by sample

---
 src/neuralnet_predict_batch.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet_predict_batch.c b/src/neuralnet_predict_batch.c
index de9a0f5..7405c9d 100644
--- a/src/neuralnet_predict_batch.c
+++ b/src/neuralnet_predict_batch.c
@@ -130,7 +130,8 @@ void neuralnet_predict_batch( const neuralnet_t *nn, const int n_samples, const
                 );
         /* Activation */
         /* ( I really hope the silly if-condition doesn't kill performance. */
-        if ( layer_ptr->activation_func == softmax ){
+        /* A user-supplied (symbol@library) function may, like softmax, need one whole sample at a time. */
+        if ( layer_ptr->activation_func == softmax || strchr( get_activation_name( layer_ptr->activation_func ), '@' )){
             float *out = activations[i+1];
             for ( int j = 0; j < n_samples; j++, out += layer_ptr->n_output)
                 layer_ptr->activation_func ( layer_ptr->n_output, out );
-- 
2.43.0


From b784dc43c44e8179deedc26b06adb57d6e1d49d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:07 +0000
Subject: [PATCH 34/45] fix: find the last epoch in log files with joined or
 binary lines

---
 src/logger.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/logger.c b/src/logger.c
index 8b44015..221e9ef 100644
--- a/src/logger.c
+++ b/src/logger.c
@@ -45,14 +45,18 @@ static int find_last_epoch_from_logfile( logger_t *logger )
         FILE *fp = fopen( logger->filename, "r");
         if(!fp)
             return logger->epoch_count; /* Fail silently should be OK */
-        int  last_epoch    = -1;
-        bool start_of_line = true;  /* Lines longer than the buffer come in several pieces */
-        char buf[MAX_BUFFER + 1];
-        while( fgets( buf, sizeof(buf), fp ) ){
-            char *e_counter = start_of_line ? strstr( buf, EPOCH_STR ) : NULL;
-            if( e_counter )
-                last_epoch = atoi( e_counter + strlen(EPOCH_STR) );
-            start_of_line = strchr( buf, '\n' ) != NULL;
+        int last_epoch = -1, n_matched = 0, ch;
+        while( (ch = fgetc( fp )) != EOF ){
+            if( ch == EPOCH_STR[n_matched] )
+                n_matched++;
+            else
+                n_matched = ch == EPOCH_STR[0];
+            if( n_matched == (int) strlen( EPOCH_STR )){
+                int epoch;
+                if( fscanf( fp, "%d", &epoch ) == 1 )
+                    last_epoch = epoch;
+                n_matched = 0;
+            }
         }
         fclose(fp);
         if( last_epoch >= 0 )
-- 
2.43.0


From cf17230bf6128f4214d092d256034f06c23132f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:30 +0000
Subject: [PATCH 35/45] fix: unmap the pages behind the data of a mapped array

---
 npy_array/npy_array.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index e52290e..51c7e13 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -358,7 +358,15 @@ npy_array_t * npy_array_mmap( const char *filename )
     if(!m) {
         fprintf(stderr, "Cannot read matrix.\n");
         munmap( data, len );
+        return NULL;
     }
+
+    /* npy_array_free() unmaps up to the end of the data. Do not keep the pages behind it. */
+    const size_t page_size = sysconf( _SC_PAGESIZE );
+    const size_t used      = m->data + npy_array_calculate_datasize( m ) - data;
+    const size_t keep      = (used + page_size - 1) / page_size * page_size;
+    if( keep < (size_t) len )
+        munmap( data + keep, len - keep );
     return m;
 }
 
-- 
2.43.0


From dea371b4a83e500cfa4e6df1cd7a19f955e3bffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 36/45] fix: write the headers of arrays with many large
 dimensions

---
 npy_array/npy_array.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/npy_array/npy_array.c b/npy_array/npy_array.c
index 51c7e13..be5d10b 100644
--- a/npy_array/npy_array.c
+++ b/npy_array/npy_array.c
@@ -120,8 +120,11 @@ size_t npy_array_get_header( const npy_array_t *m,  char *buf )
             m->fortran_order ? "True": "False",
             shape );
 
-    assert( len < HEADER_LEN ); /* FIXME: This can go wrong for really big arrays with a lot of dimensions */
-    len += sprintf( dict + len, "%*s\n", (int) (HEADER_LEN - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
+    /* Many large dimensions do not fit, and need a longer header. */
+    size_t header_len = HEADER_LEN;
+    while( len >= header_len )
+        header_len += 64;
+    len += sprintf( dict + len, "%*s\n", (int) (header_len - len + NPY_ARRAY_PREHEADER_LENGTH - 1), " " );
 
     const uint16_t _len = (uint16_t) (len);
     memcpy( p, &_len, sizeof(uint16_t));
-- 
2.43.0


From 5f10790f3e2a670d7c415ea566e05a58646bd364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:38 +0000
Subject: [PATCH 37/45] fix: survive activation names of many megabytes

---
 src/activation.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index aaf6b5c..7f55038 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -113,7 +113,8 @@ static activation_func get_activation_func_dynamic( const char *name )
     char *library_file = at + 1;
     char *symbol = file_and_symbol_name;
 
-    void *handle = dlopen( library_file, RTLD_NOW );
+    /* The dynamic linker copies the name to its stack. */
+    void *handle = strlen( library_file ) < FILENAME_MAX ? dlopen( library_file, RTLD_NOW ) : NULL;
     if ( !handle ){
         fprintf( stderr, "Cannot open dynamic library '%s'. \n"
                 "Set LD_LIBRARY_PATH \n"
@@ -123,16 +124,17 @@ static activation_func get_activation_func_dynamic( const char *name )
         return NULL;
     }
     activation_func retfunc = dlsym( handle, symbol );
-    char derivative_symbol[strlen( symbol ) + sizeof( "_derivative" )];
-    sprintf(derivative_symbol, "%s_derivative", symbol );
-    free( file_and_symbol_name );
     char * error_message = dlerror();
     if( error_message )
     {
         fprintf( stderr, "dlsym(): %s\n", error_message );
+        free( file_and_symbol_name );
         dlclose( handle );
         return NULL;
     }
+    char derivative_symbol[strlen( symbol ) + sizeof( "_derivative" )];
+    sprintf(derivative_symbol, "%s_derivative", symbol );
+    free( file_and_symbol_name );
 
     activation_record_t *rec = malloc( sizeof(activation_record_t) );
     if ( !rec ){
-- 
2.43.0


From 58aacd5f9709344f6ccf27d7c7eb060cd1196ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:02 +0000
Subject: [PATCH 38/45] fix: load a custom activation only once

---
 src/activation.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 7f55038..6494772 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -90,7 +90,10 @@ static activation_record_t *records = NULL;  /* A linked list of open activation
 
 static activation_func get_activation_func_dynamic( const char *name )
 {
-    atexit(cleanup_dynamic_symbols);
+    /* It may have been loaded already */
+    for( activation_record_t *iter = records; iter; iter = iter->next )
+        if( !strcmp( iter->activation_name, name ))
+            return iter->func_ptr;
 
     /* strdup() is not ansi c .... */
     size_t len = strlen( name ) + 1;
@@ -166,9 +169,10 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->next = NULL;
 
     /* Find the backmost and append */
-    if( !records )
+    if( !records ){
+        atexit(cleanup_dynamic_symbols);
         records = rec;
-    else {
+    } else {
         activation_record_t *endptr = records;
         while(endptr->next)
             endptr = endptr->next;
-- 
2.43.0


From 9cd8fe660ad9b2e3ecdcbf8d3ddc43fcc5fcc3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:41 +0000
Subject: [PATCH 39/45] fix: make neuralnet_create available when compiling
 with PREDICTION_ONLY

neuralnet_load() calls neuralnet_create(), so a library compiled with
-DPREDICTION_ONLY could not load any model.
---
 src/neuralnet.c | 5 +++++
 src/neuralnet.h | 2 +-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index bac9f58..d765233 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -620,6 +620,8 @@ void neuralnet_get_parameters( const neuralnet_t *nn, float *params )
     }
 }
 
+#endif /* PREDICTION_ONLY */
+
 /**
   @brief: Creates a new neural network structure and allocates memory for the parameters.
 
@@ -702,13 +704,16 @@ neuralnet_t * neuralnet_create( const int n_layers, int sizes[], char *activatio
         }
     }
 
+#ifndef PREDICTION_ONLY
     /* We really don't want a dangling pointer for the loss function */
     nn->loss = NULL;
     /* The user should set the loss function by calling `neuralnet_set_loss( nn, "nameofloss")` */
+#endif
 
     return nn;
 }
 
+#ifndef PREDICTION_ONLY
 /* functions for initializing weights of fresh neural networks */
 
 /* Returns a random float number from -1 to +1 with a uniform probability distribution. */
diff --git a/src/neuralnet.h b/src/neuralnet.h
index 5131704..b2472b2 100644
--- a/src/neuralnet.h
+++ b/src/neuralnet.h
@@ -30,11 +30,11 @@ struct _neuralnet_t
 neuralnet_t * neuralnet_load             ( const char *filename );
 void          neuralnet_free             (       neuralnet_t *nn); 
 void          neuralnet_predict          ( const neuralnet_t *nn, const float *input, float *output);
-#ifndef PREDICTION_ONLY
 /* Two macros to hide the compound literals */
 #define INT_ARRAY(...) (int[]){__VA_ARGS__}
 #define STR_ARRAY(...) (char*[]){__VA_ARGS__, NULL}
 neuralnet_t * neuralnet_create           ( const int n_layers, int sizes[], char *activation_funcs[] );
+#ifndef PREDICTION_ONLY
 void          neuralnet_initialize       (       neuralnet_t *nn, char *initializers[] );
 void          neuralnet_set_loss         (       neuralnet_t *nn, const char *loss_name );
 void          neuralnet_backpropagation  ( const neuralnet_t *nn, const float *input, const float *desired, float *gradient);
-- 
2.43.0


From 97a6e9654bbde8cdbab0c28e70a7c7e4455501be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:58 +0000
Subject: [PATCH 40/45] fix: do not put the parameters of big networks on the
 stack

---
 src/RMSprop.c   | 11 +++++++++--
 src/SGD.c       |  7 ++++++-
 src/adagrad.c   |  7 ++++++-
 src/adam.c      | 11 +++++++++--
 src/optimizer.c | 30 ++++++++++++++++++++++--------
 5 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/RMSprop.c b/src/RMSprop.c
index cc8d746..acf0e12 100644
--- a/src/RMSprop.c
+++ b/src/RMSprop.c
@@ -93,6 +93,12 @@ void RMSprop_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    /* On the heap: the parameters of a big network do not fit on the stack */
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float) );
+    float *g2        = simd_malloc( n_parameters * sizeof(float) );
+    assert( batchgrad );
+    assert( g2 );
+
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
         /* Apply interim update */
@@ -102,7 +108,6 @@ void RMSprop_run_epoch( optimizer_t *opt,
                 neuralnet_update( nn, rmsprop->velocity );
         }
 
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
         if( opt->progress ) opt->progress( i, n_train_samples, "Train: " );
 
@@ -114,7 +119,6 @@ void RMSprop_run_epoch( optimizer_t *opt,
         float *delta_w = batchgrad;
         float *r = rmsprop->r; 
 
-        float SIMD_ALIGN(g2[n_parameters]);
         vector_square_elements( n_parameters, g2, batchgrad );
         vector_saxpby( n_parameters, r, 1.0f - rmsprop->rho, g2, rmsprop->rho );
 
@@ -127,5 +131,8 @@ void RMSprop_run_epoch( optimizer_t *opt,
         else
             neuralnet_update( nn, delta_w );
     }
+
+    simd_free( batchgrad );
+    simd_free( g2 );
 }
 
diff --git a/src/SGD.c b/src/SGD.c
index 6ea3dbc..b43aaba 100644
--- a/src/SGD.c
+++ b/src/SGD.c
@@ -58,6 +58,10 @@ void SGD_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    /* On the heap: the parameters of a big network do not fit on the stack */
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float) );
+    assert( batchgrad );
+
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
         /* Apply interim update */
@@ -68,7 +72,6 @@ void SGD_run_epoch( optimizer_t *opt,
         }
 
         /* Calculate batch gradient */
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
 
         /* Progress callback */
@@ -93,5 +96,7 @@ void SGD_run_epoch( optimizer_t *opt,
         else
             neuralnet_update( nn, neg_eta_grad );
     }
+
+    simd_free( batchgrad );
 }
 
diff --git a/src/adagrad.c b/src/adagrad.c
index b2b6a85..02f242e 100644
--- a/src/adagrad.c
+++ b/src/adagrad.c
@@ -98,9 +98,12 @@ void adagrad_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    /* On the heap: the parameters of a big network do not fit on the stack */
+    float *batchgrad = simd_malloc( n_parameters * sizeof(float) );
+    assert( batchgrad );
+
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
-        float SIMD_ALIGN(batchgrad[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, batchgrad );
         if( opt->progress ) opt->progress( i, n_train_samples, "Train: " );
         
@@ -116,5 +119,7 @@ void adagrad_run_epoch( optimizer_t *opt,
 
         neuralnet_update( nn, delta_w );
     }
+
+    simd_free( batchgrad );
 }
 
diff --git a/src/adam.c b/src/adam.c
index b93999e..fd3b6e9 100644
--- a/src/adam.c
+++ b/src/adam.c
@@ -160,10 +160,15 @@ void adam_run_epoch( optimizer_t *opt,
     neuralnet_t *nn = opt->nn;
     const unsigned int n_parameters = neuralnet_total_n_parameters( nn );
 
+    /* On the heap: the parameters of a big network do not fit on the stack */
+    float *g       = simd_malloc( n_parameters * sizeof(float) );
+    float *weights = simd_malloc( n_parameters * sizeof(float) );
+    assert( g );
+    assert( weights );
+
     /* One epoch */
     for ( unsigned int i = 0; i < n_train_samples ;  ){
 
-        float SIMD_ALIGN(g[n_parameters]);
         optimizer_calc_batch_gradient( opt, n_train_samples, train_X, train_Y, &i, g );
         if(opt->progress) opt->progress( i, n_train_samples, "Train: " );
         
@@ -181,12 +186,14 @@ void adam_run_epoch( optimizer_t *opt,
         compute_update_adam( n_parameters, g, adam->s, adam->r, adam->beta_1_corrected, adam->beta_2_corrected, adam->learning_rate );
 
         if( adam->weight_decay > 0.0f ){
-            float SIMD_ALIGN(weights[n_parameters]);
             neuralnet_get_parameters( nn, weights );
             vector_saxpy( n_parameters, g, -adam->weight_decay, weights);
         }
 
         neuralnet_update( nn, g);
     }
+
+    simd_free( g );
+    simd_free( weights );
 }
 
diff --git a/src/optimizer.c b/src/optimizer.c
index e16af63..fed76b1 100644
--- a/src/optimizer.c
+++ b/src/optimizer.c
@@ -70,14 +70,28 @@ void optimizer_calc_batch_gradient( optimizer_t *opt,
 
     const int remaining_samples = (int) n_train_samples - (int) *i;
     const int batchsize = remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;
-#pragma omp parallel for reduction(+:batchgrad[0:n_parameters])
-    for ( int b = 0 ; b < batchsize; b++){
-        const int idx = *i + b;
-        float SIMD_ALIGN(grad[n_parameters]);
-        neuralnet_backpropagation( nn, train_X + ((size_t) opt->pivot[idx] * n_input), train_Y + ((size_t) opt->pivot[idx] * n_output), grad );
-        /* When using OpenMP, OpenMP will not align stack allocated arrays -- we therefore
-           have to use `_unaligned` for this accumulation. :-(  */
-        vector_accumulate_unaligned( n_parameters, batchgrad, grad );
+#pragma omp parallel
+    {
+        /* Each thread sums up its own samples. The memory is on the heap, as the parameters of
+           a big network do not fit on the stack. */
+        float *grad = simd_malloc( n_parameters * sizeof(float) );
+        float *sum  = simd_malloc( n_parameters * sizeof(float) );
+        assert( grad );
+        assert( sum );
+        memset( sum, 0, n_parameters * sizeof(float));
+
+#pragma omp for
+        for ( int b = 0 ; b < batchsize; b++){
+            const int idx = *i + b;
+            neuralnet_backpropagation( nn, train_X + ((size_t) opt->pivot[idx] * n_input), train_Y + ((size_t) opt->pivot[idx] * n_output), grad );
+            vector_accumulate( n_parameters, sum, grad );
+        }
+
+#pragma omp critical
+        vector_accumulate_unaligned( n_parameters, batchgrad, sum );
+
+        simd_free( grad );
+        simd_free( sum );
     }
     *i += batchsize;
     vector_divide_by_scalar( n_parameters, batchgrad, (float) batchsize );
-- 
2.43.0


From e57b6b4f3f20cc3c9c5e60a29af3ba1bfe7f46a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:12 +0000
Subject: [PATCH 41/45] fix: do not abort or save half when memory for an
 archive runs out

---
 npy_array/npy_array_list.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/npy_array/npy_array_list.c b/npy_array/npy_array_list.c
index 6919de5..77d313f 100644
--- a/npy_array/npy_array_list.c
+++ b/npy_array/npy_array_list.c
@@ -40,7 +40,6 @@ IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 #include <stdio.h>
 #include <string.h>
 #include <ctype.h>
-#include <assert.h>
 #include <stdarg.h>
 
 #define MAX_FILENAME_LEN 80
@@ -87,7 +86,11 @@ static char * _va_args_filename( const char *filename, va_list ap1 )
     }
 
     char *real_filename = malloc( (len+1) * sizeof(char));
-    assert( real_filename );
+    if( !real_filename ){
+        fprintf( stderr, "Warning: Cannot allocate memory for the name of a numpy array.\n" );
+        va_end( ap2 );
+        return NULL;
+    }
 
     vsprintf( real_filename, filename, ap2 );
     va_end( ap2 );
@@ -118,7 +121,10 @@ static npy_array_list_t * _list_prepend( npy_array_list_t *list, npy_array_list_
 npy_array_list_t * npy_array_list_ ##oper ( npy_array_list_t *list, npy_array_t *array, const char *filename, ... ) \
 { \
     npy_array_list_t *new_list = npy_array_list_new(); \
-    if ( !new_list ) return list; \
+    if ( !new_list ) { \
+        fprintf( stderr, "Warning: Cannot allocate memory for list element.\n" ); \
+        return list; \
+    } \
     new_list->array = array; \
 \
     va_list ap1; \
@@ -167,8 +173,8 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
     for( npy_array_list_t *iter = array_list; iter; iter = iter->next ){
         /* if the filename is not set, set one. However.. if the list was created with append and prepend,
          * this will never be true. */
-        if(!iter->filename)
-            iter->filename = _new_internal_filename( n );
+        if(!iter->filename && !(iter->filename = _new_internal_filename( n )))
+            goto memory_error;
 
         char header[_BUFSIZE] = {'\0'};
 
@@ -178,18 +184,24 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         size_t datasize = npy_array_calculate_datasize( m );
 
         char *matrix_npy_format = malloc( hlen + datasize );
-        assert( matrix_npy_format );
+        if( !matrix_npy_format )
+            goto memory_error;
         memcpy( matrix_npy_format, header, hlen );
         memcpy( matrix_npy_format + hlen, m->data, datasize );
 
         /* FIXME: Check for error */
         zip_source_t *s = zip_source_buffer_create( matrix_npy_format, hlen + datasize, 1, NULL);
-        assert(s); 
+        if( !s )
+            goto memory_error;  /* libzip may have freed the data already, or not. Do not free it twice. */
 
         int idx = zip_file_add( zip, iter->filename, s, ZIP_FL_ENC_UTF_8 );
         if( idx < 0 ){
             fprintf( stderr, "Warning: Cannot save '%s': %s\n", iter->filename, zip_strerror( zip ));
             zip_source_free( s );
+            /* libzip does not always set an error when it runs out of memory */
+            const int error_code = zip_error_code_zip( zip_get_error( zip ));
+            if( error_code == ZIP_ER_MEMORY || error_code == ZIP_ER_OK )
+                goto memory_error;
             continue;
         }
         if( idx != n )
@@ -210,6 +222,11 @@ int npy_array_list_save_compressed( const char *filename, npy_array_list_t *arra
         return 0;
     }
     return n;
+
+memory_error:
+    fprintf( stderr, "Warning: Cannot allocate memory for saving '%s'.\n", filename );
+    zip_discard( zip );
+    return 0;
 }
 
 npy_array_list_t * npy_array_list_load( const char *filename )
-- 
2.43.0


From 4ef1a298e46b76a11c8de88da495a644580f7429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:46 +0000
Subject: [PATCH 42/45] fix: do not abort when memory for loading or saving a
 network runs out

---
 src/neuralnet.c | 61 +++++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/neuralnet.c b/src/neuralnet.c
index d765233..f8793c9 100644
--- a/src/neuralnet.c
+++ b/src/neuralnet.c
@@ -100,9 +100,13 @@ weight_alloc_error:
 static char ** _activation_names_from_npy( npy_array_t *m )
 {
     char ** ret = calloc( m->shape[0], sizeof( char* ));
-    assert( ret );
+    if( !ret )
+        return NULL;
     ret[0] = calloc( m->shape[0] * (m->elem_size + 1), sizeof(char) );  /* sizeof(char) is always 1! */
-    assert( ret[0] );
+    if( !ret[0] ){
+        free( ret );
+        return NULL;
+    }
 
     for( unsigned int i = 1; i < m->shape[0]; i++ )
         ret[i] = ret[0] + i * (m->elem_size + 1);
@@ -193,7 +197,10 @@ neuralnet_t *neuralnet_load( const char *filename)
         fprintf( stderr, "Cannot create a neural network from file '%s'.\n", filename );
         goto load_error;
     }
-    activation_funcs = _activation_names_from_npy( activations );
+    if( !(activation_funcs = _activation_names_from_npy( activations ))){
+        fprintf( stderr, "Cannot allocate memory for the activation names.\n" );
+        goto load_error;
+    }
 
     int n_layers = wb_idx / 2;
     {  /* An added scope to please 'goto' */
@@ -317,6 +324,24 @@ void neuralnet_predict( const neuralnet_t *nn, const float *input, float *out )
 
 #ifndef PREDICTION_ONLY
 #define _MAX_FILENAME_LEN 128
+
+/* Appends a heap allocated copy of the array. The data is not copied. Returns false if out of memory. */
+static bool _save_list_append( npy_array_list_t **list, const npy_array_t *array, const char *name, int idx )
+{
+    npy_array_t *copy = malloc( sizeof(npy_array_t) );
+    if( !copy )
+        return false;
+
+    memcpy( copy, array, sizeof(npy_array_t));
+    const size_t len = npy_array_list_length( *list );
+    *list = npy_array_list_append( *list, copy, name, idx );
+    if( npy_array_list_length( *list ) == len ){
+        free( copy );
+        return false;
+    }
+    return true;
+}
+
 /**
   @brief: Saves a neural network to the specified filename.
 
@@ -365,26 +390,18 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
     va_end( ap2 );
 
     npy_array_list_t *save = NULL;
+    bool complete = true;
 
     for (int i = 0; i < nn->n_layers ; i++ ){
         /* weight */
-        npy_array_t  *w = calloc( 1, sizeof( npy_array_t ));
-        assert( w );
-        memcpy( w, NPY_ARRAY_BUILDER(
+        complete = complete && _save_list_append( &save, NPY_ARRAY_BUILDER(
                     nn->layer[i].weight,
                     SHAPE( nn->layer[i].n_input, nn->layer[i].n_output),
-                    NPY_DTYPE_FLOAT32),
-                sizeof(npy_array_t));
-        save = npy_array_list_append( save, w, "weight_%d", i );
+                    NPY_DTYPE_FLOAT32), "weight_%d", i );
         /* bias */
-        npy_array_t *b = calloc( 1, sizeof( npy_array_t ));
-        assert( b );
-        memcpy( b, NPY_ARRAY_BUILDER(
-                nn->layer[i].bias,
-                SHAPE( nn->layer[i].n_output), NPY_DTYPE_FLOAT32),
-                sizeof(npy_array_t));
-
-        save = npy_array_list_append( save, b, "bias_%d", i );
+        complete = complete && _save_list_append( &save, NPY_ARRAY_BUILDER(
+                    nn->layer[i].bias,
+                    SHAPE( nn->layer[i].n_output), NPY_DTYPE_FLOAT32), "bias_%d", i );
         /* Note: The npy_arrays have to be allocated and copied.
            They are automatic stack allocated and they go out of scope
            when leaving the for-loop */
@@ -409,15 +426,15 @@ void neuralnet_save( const neuralnet_t *nn, const char *filename, ... )
         memcpy( ptr, activation_name, len );
     }        
 
-    npy_array_t *a = malloc( sizeof(npy_array_t));
-    assert( a );
-    memcpy( a, NPY_ARRAY_BUILDER( data, SHAPE( nn->n_layers ), .typechar='S', .elem_size = (size_t) longest_name ), sizeof(npy_array_t));
-    save = npy_array_list_append( save, a, "activations" );
+    complete = complete && _save_list_append( &save, NPY_ARRAY_BUILDER(
+                data, SHAPE( nn->n_layers ), .typechar='S', .elem_size = (size_t) longest_name ), "activations", 0 );
     /* (The above npy_array doesn't go out of any scope. heap allocating and copying is unnecessary, however ...
         Then I cannot free this array in the same way as the others. I need to treat it different when freeing!
         I therefore allocate on heap anyway...)  */
 
-    int n_saved = npy_array_list_save( real_filename, save );
+    if( !complete )
+        fprintf( stderr, "Warning: Cannot save neural network. Cannot allocate memory.\n" );
+    int n_saved = complete ? npy_array_list_save( real_filename, save ) : 0;
     if( n_saved != (nn->n_layers*2 + 1) )
         printf("Warning: Arrays written: %d  !=  2 x n_layers + 1     (n_layers=%d)\n", n_saved, nn->n_layers );
 
-- 
2.43.0


From 93862a8385e108a81c3e579054d8e175c49cf902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:46 +0000
Subject: [PATCH 43/45] fix: do not use an activation whose library is closed
 again

---
 src/activation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/activation.c b/src/activation.c
index 6494772..979cc51 100644
--- a/src/activation.c
+++ b/src/activation.c
@@ -143,7 +143,7 @@ static activation_func get_activation_func_dynamic( const char *name )
     if ( !rec ){
         perror( "Cannot allocate memory for dynamic loaded activation function record.\n" );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
 
     /* Need to strdup again ... (Or maybe I can reuse if I re-insert the @ ?) */
@@ -151,8 +151,9 @@ static activation_func get_activation_func_dynamic( const char *name )
     rec->activation_name = malloc( len );
     if ( !rec->activation_name ){
         perror("Cannot allocate memory for dynamic loaded activation function name.\n" );
+        free( rec );
         dlclose( handle );
-        return retfunc;
+        return NULL;
     }
     memcpy( rec->activation_name, name, len);
 
-- 
2.43.0


From 5f5db896e63497c818fbdd7912cc839fdc68ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:47 +0000
Subject: [PATCH 44/45] fix: do not lose samples when evaluating a big data set

The sums were kept in float: beyond 2^24 samples they stop growing (the mean
of 2^25 ones came out as 0.5), and tens of thousands of samples cost several
digits. Sum in double.
---
 src/evaluate.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/evaluate.c b/src/evaluate.c
index 319ebaa..70cf5d5 100644
--- a/src/evaluate.c
+++ b/src/evaluate.c
@@ -25,8 +25,9 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
     while ( *mf_ptr++ )
         n_metrics++;
 
-    float local_results[n_metrics];
-    memset( local_results, 0, n_metrics * sizeof(float));
+    /* Sum in double: a float sum stops growing when there are many samples */
+    double local_results[n_metrics];
+    memset( local_results, 0, n_metrics * sizeof(double));
 #ifdef USE_CBLAS
     float *predictions = calloc( (size_t) n_output * n_valid_samples, sizeof(float));
     if( !predictions ){
@@ -43,7 +44,7 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
         SIMD_ALIGN(float y_pred[n_output]);
         neuralnet_predict( nn, valid_X + ((size_t) i*n_input), y_pred );
 #endif
-        float *res = local_results;
+        double *res = local_results;
         for ( int j = 0; j < n_metrics; j++ ){
             float _error = metrics[j]( n_output, y_pred, valid_Y + ((size_t) i*n_output));
             *res++ += _error;
@@ -56,5 +57,5 @@ void evaluate( neuralnet_t *nn, const int n_valid_samples, const float *valid_X,
 
     float *res = results;
     for ( int i = 0; i < n_metrics; i++ )
-        *res++ = local_results[i] / (float) n_valid_samples;
+        *res++ = (float) (local_results[i] / n_valid_samples);
 }
-- 
2.43.0


From 85023e751b90c2f38962ee9e4c63006f82844c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:56 +0000
Subject: [PATCH 45/45] fix: npy_array_list: read big compressed arrays in
 chunks

libzip decompresses at most UINT_MAX bytes in one zip_fread() call: a deflated array of more than 4 GB
was read with wrong contents and no error.
---
 npy_array/npy_array_list.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/npy_array/npy_array_list.h b/npy_array/npy_array_list.h
index 571e7d9..515611d 100644
--- a/npy_array/npy_array_list.h
+++ b/npy_array/npy_array_list.h
@@ -59,7 +59,19 @@ npy_array_list_t* npy_array_list_append ( npy_array_list_t *list, npy_array_t *a
 
 static inline int64_t read_zip( void *fp, void *buffer, uint64_t nbytes )
 {
-    return (int64_t) zip_fread( (zip_file_t *) fp, buffer, nbytes );
+    /* libzip cannot decompress more than UINT_MAX bytes in one zip_fread() call, so read big arrays in chunks. */
+    const uint64_t max_chunk = UINT64_C(1) << 30;
+    uint64_t total = 0;
+    while( total < nbytes ){
+        uint64_t    chunk = nbytes - total < max_chunk ? nbytes - total : max_chunk;
+        zip_int64_t n = zip_fread( (zip_file_t *) fp, (char*) buffer + total, chunk );
+        if( n < 0 )
+            return -1;
+        if( n == 0 )
+            break;
+        total += (uint64_t) n;
+    }
+    return (int64_t) total;
 }
 
 #endif /*  __NPY_ARRAY_LIST_H__  */
-- 
2.43.0

