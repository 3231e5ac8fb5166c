CHECK = 'C14'
BROKEN = [
 [('xcsf/param.c', "    xcsf->error = xcsf->E0;\n    param_set_alpha", "    param_set_alpha"), ('xcsf/param.c', "    xcsf->time = 0;\n    xcsf->mset_size", "    xcsf->time = 0;\n    xcsf->error = xcsf->E0;\n    xcsf->mset_size")],
 [('xcsf/ea.c', "#include \"ea.h\"\n", "#include \"ea.h\"\n#include <time.h>\n"), ('xcsf/ea.c', "    const double mtime = clset_mean_time(set);", "    const double mtime = clset_mean_time(set) + (time(NULL) % 2);")],
 [('xcsf/param.c', "        rand_init_seed(a);", "        rand_init_seed(a % 1000);")],
 [('xcsf/param.c', "    if (a < 0) {\n        rand_init();", "    if (a <= 0) {\n        rand_init();")],
 [('xcsf/utils.c', "rand_uniform_int(const int min, const int max)\n{", "rand_uniform_int(const int min, const int max)\n{\n    if (max - min > 1000) return min + rand() % (max - min);")],
 [('xcsf/clset.c', "clset_mean_time(const struct Set *set)\n{", "clset_mean_time(const struct Set *set)\n{\n    static int ncalls; ++ncalls; if (ncalls % 1000 == 0) return 0;")],
 [('xcsf/neural_layer_recurrent.c', "#include \"neural_layer_recurrent.h\"\n", "#include \"neural_layer_recurrent.h\"\nstatic int hist[4];\nvoid neural_hist(int i);\nvoid neural_hist(int i) { hist[i] += 1; }\n")],
 [('xcsf/cl.c', "cl_rand(const struct XCSF *xcsf, struct Cl *c)\n{", "cl_rand(const struct XCSF *xcsf, struct Cl *c)\n{\n    if (((unsigned long) c) % 64 == 32) c->time = 1;")],
 [('xcsf/cl.c', "    c->size = xcsf->M_PROBATION", "    c->size = xcsf->M_PROBATION")] if 0 else
 [('xcsf/pred_rls.c', "    double *tmp = malloc(", "    double *tmp = malloc(")] if 0 else
 [('xcsf/utils.c', "rand_init_seed(const uint32_t seed)\n{\n    dsfmt_gv_init_gen_rand(seed);", "rand_init_seed(const uint32_t seed)\n{\n    static bool first = true;\n    if (first) dsfmt_gv_init_gen_rand(seed);\n    first = false;")],
]
KEPT = [
 [('xcsf/param.c', "    xcsf->RANDOM_STATE = a;\n    if (a < 0) {\n        rand_init();\n    } else {\n        rand_init_seed(a);\n    }", "    if (a >= 0) {\n        const uint32_t s = (uint32_t) a;\n        rand_init_seed(s);\n    } else {\n        rand_init();\n    }\n    xcsf->RANDOM_STATE = a;")],
 [('xcsf/utils.c', "    static double z1;\n    static bool generate;\n    generate = !generate;\n    if (!generate) {", "    generate = !generate;\n    if (!generate) {"), ('xcsf/utils.c', "void\nrand_init(void)\n{", "static double z1;\nstatic bool generate;\n\nvoid\nrand_init(void)\n{\n    generate = false;"), ('xcsf/utils.c', "rand_init_seed(const uint32_t seed)\n{", "rand_init_seed(const uint32_t seed)\n{\n    generate = false;")],
]
