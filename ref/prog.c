/* Reference semantics of GP trees, dynamical graphs, random numbers and the
 * built-in environments (see learn.c). */
#include "xcsf.h"
#include "cl.h"
#include "condition.h"
#include "dgp.h"
#include "env_csv.h"
#include "env_maze.h"
#include "env_mux.h"
#include "gp.h"
#include "param.h"
#include "prediction.h"
#include "sam.h"
#include "utils.h"

#ifndef GP_NUM_FUNC
#define GP_NUM_FUNC (4)
#endif

int
tree_traverse(int *tree, int pos);
int
tree_grow(const struct ArgsGPTree *args, int *tree, const int pos,
          const int max, const int depth);
double
node_activate(int function, const double *inputs, const int K);
void
synchronous_update(const struct Graph *dgp, const double *inputs);

/* ---- GP trees: prefix order; functions 0..3, constants, then inputs ---- */

/* position after the sub-tree that starts at pos */
int
ref_tree_traverse(int *tree, int pos)
{
    if (tree[pos] < GP_NUM_FUNC) {
        const int second = tree_traverse(tree, pos + 1);
        return tree_traverse(tree, second);
    }
    return pos + 1;
}

static double
bound(double v)
{
    if (v < -1000) {
        return -1000;
    }
    return v > 1000 ? 1000 : v;
}

double
ref_tree_eval(struct GPTree *gp, const struct ArgsGPTree *args,
              const double *x)
{
    const int node = gp->tree[gp->pos++];
    if (node < GP_NUM_FUNC) {
        double a = tree_eval(gp, args, x);
        a = bound(a);
        double b = tree_eval(gp, args, x);
        b = bound(b);
        if (node == 0) {
            return a + b;
        } else if (node == 1) {
            return a - b;
        } else if (node == 2) {
            return a * b;
        } else if (node == 3) {
            return b == 0 ? a : a / b;
        }
        exit(EXIT_FAILURE);
    }
    const int t = node - GP_NUM_FUNC;
    return t < args->n_constants ? args->constants[t] :
                                   x[t - args->n_constants];
}

int
ref_tree_grow(const struct ArgsGPTree *args, int *tree, const int pos,
              const int max, const int depth)
{
    if (pos < max) {
        bool leaf = depth == 0;
        if (!leaf && pos != 0) {
            leaf = rand_uniform(0, 1) < 0.5;
        }
        if (leaf) {
            tree[pos] = rand_uniform_int(
                GP_NUM_FUNC, GP_NUM_FUNC + args->n_constants + args->n_inputs);
            return pos + 1;
        }
        tree[pos] = rand_uniform_int(0, GP_NUM_FUNC);
        const int next = tree_grow(args, tree, pos + 1, max, depth - 1);
        return next < 0 ? -1 : tree_grow(args, tree, next, max, depth - 1);
    }
    return -1;
}

/* exchanges a random sub-tree of one with a random sub-tree of the other */
static void
swap(struct GPTree *p1, struct GPTree *p2, bool len)
{
    const int s1 = rand_uniform_int(0, p1->len);
    const int e1 = tree_traverse(p1->tree, s1);
    const int s2 = rand_uniform_int(0, p2->len);
    const int e2 = tree_traverse(p2->tree, s2);
    const int n1 = s1 + (e2 - s2) + (p1->len - e1);
    const int n2 = s2 + (e1 - s1) + (p2->len - e2);
    int *t1 = malloc(sizeof(int) * n1);
    memcpy(t1, p1->tree, sizeof(int) * s1);
    memcpy(t1 + s1, p2->tree + s2, sizeof(int) * (e2 - s2));
    memcpy(t1 + s1 + e2 - s2, p1->tree + e1, sizeof(int) * (p1->len - e1));
    int *t2 = malloc(sizeof(int) * n2);
    memcpy(t2, p2->tree, sizeof(int) * s2);
    memcpy(t2 + s2, p1->tree + s1, sizeof(int) * (e1 - s1));
    memcpy(t2 + s2 + e1 - s1, p2->tree + e2, sizeof(int) * (p2->len - e2));
    free(p1->tree);
    free(p2->tree);
    p1->tree = t1;
    p2->tree = t2;
    p1->len = len ? n1 : tree_traverse(p1->tree, 0);
    p2->len = len ? n2 : tree_traverse(p2->tree, 0);
}

void
ref_tree_crossover(struct GPTree *p1, struct GPTree *p2)
{
    swap(p1, p2, false);
}

void
alt_tree_crossover(struct GPTree *p1, struct GPTree *p2)
{
    swap(p1, p2, true);
}

/* point mutation within the same kind of symbol */
bool
ref_tree_mutate(struct GPTree *gp, const struct ArgsGPTree *args)
{
    static const int type[1] = { SAM_RATE_SELECT };
    sam_adapt(gp->mu, 1, type);
    int n = 0;
    for (int i = 0; i < gp->len; ++i) {
        if (rand_uniform(0, 1) < gp->mu[0]) {
            const int old = gp->tree[i];
            int lo = 0;
            int hi = GP_NUM_FUNC;
            if (old >= GP_NUM_FUNC) {
                lo = GP_NUM_FUNC;
                hi = GP_NUM_FUNC + args->n_constants + args->n_inputs;
            }
            gp->tree[i] = rand_uniform_int(lo, hi);
            if (gp->tree[i] != old) {
                n = 1;
            }
        }
    }
    return n == 1;
}

/* ---- dynamical graphs ---- */

static double
unit(double v)
{
    if (v < 0) {
        return 0;
    }
    return v > 1 ? 1 : v;
}

double
ref_node_activate(int function, const double *inputs, const int K)
{
    double s = inputs[0];
    if (function == 0) {
        s = 1 - s;
    } else if (function == 1) {
        for (int i = 1; i < K; ++i) {
            s *= inputs[i];
        }
    } else if (function == 2) {
        for (int i = 1; i < K; ++i) {
            s += inputs[i];
        }
    } else {
        exit(EXIT_FAILURE);
    }
    return unit(s);
}

/* all nodes read the states of the previous cycle */
void
ref_synchronous_update(const struct Graph *dgp, const double *inputs)
{
    for (int i = 0; i < dgp->n; ++i) {
        for (int k = 0; k < dgp->max_k; ++k) {
            const int c = dgp->connectivity[i * dgp->max_k + k];
            dgp->tmp_input[k] =
                c < dgp->n_inputs ? inputs[c] : dgp->state[c - dgp->n_inputs];
        }
        dgp->tmp_state[i] =
            ref_node_activate(dgp->function[i], dgp->tmp_input, dgp->max_k);
    }
    memcpy(dgp->state, dgp->tmp_state, sizeof(double) * dgp->n);
}

void
ref_graph_reset(const struct Graph *g)
{
    memcpy(g->state, g->initial_state, sizeof(double) * g->n);
}

void
ref_graph_update(const struct Graph *g, const double *inputs, const bool reset)
{
    if (reset) {
        for (int i = 0; i < g->n; ++i) {
            g->state[i] = g->initial_state[i];
        }
    }
    for (int t = 0; t < g->t; ++t) {
        synchronous_update(g, inputs);
    }
}

double
ref_graph_output(const struct Graph *g, const int IDX)
{
    return g->state[IDX];
}

static int
connection(const struct Graph *g)
{
    if (rand_uniform(0, 1) < 0.5) {
        return g->n_inputs + rand_uniform_int(0, g->n);
    }
    return rand_uniform_int(0, g->n_inputs);
}

void
ref_graph_rand(struct Graph *g)
{
    if (g->evolve_cycles) {
        g->t = rand_uniform_int(1, g->max_t);
    }
    for (int i = 0; i < g->n; ++i) {
        g->function[i] = rand_uniform_int(0, 3);
        g->initial_state[i] = rand_uniform(0, 1);
        g->state[i] = rand_uniform(0, 1);
    }
    for (int i = 0; i < g->klen; ++i) {
        g->connectivity[i] = connection(g);
    }
}

bool
ref_graph_mutate(struct Graph *g)
{
    static const int type[3] = { SAM_LOG_NORMAL, SAM_LOG_NORMAL, SAM_UNIFORM };
    bool mod = false;
    sam_adapt(g->mu, 3, type);
    for (int i = 0; i < g->n; ++i) {
        if (rand_uniform(0, 1) < g->mu[0]) {
            const int old = g->function[i];
            g->function[i] = rand_uniform_int(0, 3);
            if (old != g->function[i]) {
                mod = true;
            }
        }
    }
    for (int i = 0; i < g->klen; ++i) {
        if (rand_uniform(0, 1) < g->mu[1]) {
            const int old = g->connectivity[i];
            g->connectivity[i] = connection(g);
            if (old != g->connectivity[i]) {
                mod = true;
            }
        }
    }
    if (g->evolve_cycles) {
        const int t = g->t + (int) round(2 * g->mu[2] - 1);
        if (t >= 1 && t <= g->max_t) {
            g->t = t;
            mod = true;
        }
    }
    return mod;
}

/* ---- random numbers ---- */

int
ref_rand_uniform_int(const int min, const int max)
{
    return (int) floor(rand_uniform(min, max));
}

/* ---- environments ---- */

const double *
ref_env_mux_get_state(const struct XCSF *xcsf)
{
    const struct EnvMux *e = xcsf->env;
    for (int i = 0; i < xcsf->x_dim; ++i) {
        e->state[i] = rand_uniform(0, 1);
    }
    return e->state;
}

double
ref_env_mux_execute(const struct XCSF *xcsf, const int action)
{
    const struct EnvMux *e = xcsf->env;
    int pos = e->pos_bits;
    for (int i = 0; i < e->pos_bits; ++i) {
        if (e->state[i] > 0.5) {
            pos += (int) pow(2, (double) (e->pos_bits - 1 - i));
        }
    }
    const int bit = e->state[pos] > 0.5;
    return action == bit ? 1 : 0;
}

void
ref_env_mux_reset(const struct XCSF *xcsf)
{
    (void) xcsf;
}

bool
ref_env_mux_is_done(const struct XCSF *xcsf)
{
    (void) xcsf;
    return true;
}

double
ref_env_mux_maxpayoff(const struct XCSF *xcsf)
{
    (void) xcsf;
    return 1;
}

bool
ref_env_mux_multistep(const struct XCSF *xcsf)
{
    (void) xcsf;
    return false;
}

static int
wrap(const int pos, const int move, const int size)
{
    return ((pos + move) % size + size) % size;
}

void
ref_env_maze_reset(const struct XCSF *xcsf)
{
    struct EnvMaze *e = xcsf->env;
    e->done = false;
    do {
        e->xpos = rand_uniform_int(0, e->xsize);
        e->ypos = rand_uniform_int(0, e->ysize);
    } while (e->maze[e->ypos][e->xpos] != '*');
}

bool
ref_env_maze_is_done(const struct XCSF *xcsf)
{
    const struct EnvMaze *e = xcsf->env;
    return e->done;
}

static double
sense(const char s)
{
    if (s == '*') {
        return 0.1;
    }
    if (s == 'O') {
        return 0.3;
    }
    if (s == 'G') {
        return 0.5;
    }
    if (s == 'F') {
        return 0.7;
    }
    if (s == 'Q') {
        return 0.9;
    }
    exit(EXIT_FAILURE);
}

const double *
ref_env_maze_get_state(const struct XCSF *xcsf)
{
    const struct EnvMaze *e = xcsf->env;
    int k = 0;
    for (int y = -1; y <= 1; ++y) {
        for (int x = -1; x <= 1; ++x) {
            if (x != 0 || y != 0) {
                e->state[k] = sense(e->maze[wrap(e->ypos, y, e->ysize)]
                                           [wrap(e->xpos, x, e->xsize)]);
                ++k;
            }
        }
    }
    return e->state;
}

double
ref_env_maze_execute(const struct XCSF *xcsf, const int action)
{
    /* clockwise from north */
    static const int dx[8] = { 0, 1, 1, 1, 0, -1, -1, -1 };
    static const int dy[8] = { -1, -1, 0, 1, 1, 1, 0, -1 };
    struct EnvMaze *e = xcsf->env;
    if (action < 0 || action > 7) {
        exit(EXIT_FAILURE);
    }
    const int x = wrap(e->xpos, dx[action], e->xsize);
    const int y = wrap(e->ypos, dy[action], e->ysize);
    const char s = e->maze[y][x];
    if (s == 'O' || s == 'Q') {
        return 0;
    }
    if (s != '*' && s != 'F' && s != 'G') {
        exit(EXIT_FAILURE);
    }
    e->xpos = x;
    e->ypos = y;
    if (s == '*') {
        return 0;
    }
    e->done = true;
    return 1;
}

double
ref_env_maze_maxpayoff(const struct XCSF *xcsf)
{
    (void) xcsf;
    return 1;
}

bool
ref_env_maze_multistep(const struct XCSF *xcsf)
{
    (void) xcsf;
    return true;
}
