/* act_template.c - a library of activation functions whose behaviour is set by constants in its data; a check makes copies
   of the compiled library with other constants. */
#define SYMBOLS(X) X(0, swish) X(1, relu) X(2, tanh) X(3, f) X(4, linear) \
    X(5, an_activation_function_with_a_rather_long_name_which_goes_on_and_on_and_on_until_nobody_wants_to_read_it_any_more_but_the_linker_does_not_mind_and_neither_should_the_library_which_looks_it_up)
#define FORWARD_ONLY(X) X(6, forward_only) X(7, g)
struct param { char magic[12]; int id; int kind, dkind; float a, b, d; };
#define P(i) { "ACT-PARAM-1", i, 0, 0, 1, 0, 1 }
static volatile struct param p[8] = { P(0), P(1), P(2), P(3), P(4), P(5), P(6), P(7) };
static void forward(int k, int n, float *x)
{
    float a = p[k].a, b = p[k].b, first = x[0];
    switch (p[k].kind) {
    case 0: for (int i = 0; i < n; i++) x[i] = a * x[i] + b; break;
    case 1: for (int i = 0; i < n; i++) x[i] = x[i] * (a + i * b); break;
    case 2: for (int i = 0; i < n; i++) x[i] = a * x[i] + b * (i + 1 < n ? x[i + 1] : first); break;
    case 3: for (int i = 0; i < n; i++) x[i] = a * x[i] + n; break;
    default: for (int i = 0; i < n; i++) x[i] = a * x[i] * x[i] + b; break;
    }
}
static void derivative(int k, int n, const float *y, float *g)
{
    float d = p[k].d;
    switch (p[k].dkind) {
    case 0: for (int i = 0; i < n; i++) g[i] *= d; break;
    case 1: for (int i = 0; i < n; i++) g[i] *= d + (i + 1) * 0.125f; break;
    case 2: for (int i = 0; i < n; i++) g[i] *= d * y[i]; break;
    default: for (int i = 0; i < n; i++) g[i] *= d + n * 0.125f; break;
    }
}
#define F(i, s) void s(const int n, float *x) { forward(i, n, x); }
#define D(i, s) void s##_derivative(const int n, const float *y, float *g) { derivative(i, n, y, g); }
SYMBOLS(F) FORWARD_ONLY(F) SYMBOLS(D)
