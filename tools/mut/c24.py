CHECK = 'C24'
GP, DG, MX, MZ = 'xcsf/gp.c', 'xcsf/dgp.c', 'xcsf/env_mux.c', 'xcsf/env_maze.c'
BROKEN = [
 [(GP, "return (b != 0) ? (a / b) : a;", "return (b != 0) ? (a / b) : b;")],
 [(GP, "const double b = clamp(tree_eval(gp, args, x), RET_MIN, RET_MAX);", "const double b = tree_eval(gp, args, x);")],
 [(GP, "#define RET_MIN (-1000)", "#define RET_MIN (-100)")],
 [(GP, "    if (node >= GP_NUM_FUNC + args->n_constants) {\n        return x[", "    if (node > GP_NUM_FUNC + args->n_constants) {\n        return x[")],
 [(GP, "args->constants[node - GP_NUM_FUNC];\n    }\n    const double a", "args->constants[(node - GP_NUM_FUNC) % 5];\n    }\n    const double a")],
 [(GP, "pos != 0 && rand_uniform(0, 1) < 0.5", "rand_uniform(0, 1) < 0.5")],
 [(GP, "    const int child = tree_grow(args, tree, pos + 1, max, depth - 1);\n", "    const int child = tree_grow(args, tree, pos + 1, max, depth);\n")],
 [(GP, "    if (pos >= max) {", "    if (pos > max) {")],
 [(GP, "memcpy(&new2[start2], &p1->tree[start1],", "memcpy(&new2[start2], &p2->tree[start1],")],
 [(GP, "    const int start2 = rand_uniform_int(0, len2);", "    const int start2 = rand_uniform_int(1, len2);")],
 [(GP, "    memcpy(&new1[start1 + (end2 - start2)], &p1->tree[end1],", "    memcpy(&new1[start1 + (end2 - start2)], &p1->tree[start1],")],
 [(GP, "                gp->tree[i] = rand_uniform_int(GP_NUM_FUNC, max_term);", "                gp->tree[i] = rand_uniform_int(GP_NUM_FUNC, max_term - args->n_inputs);")],
 [(GP, "            if (gp->tree[i] >= GP_NUM_FUNC) {", "            if (gp->tree[i] > GP_NUM_FUNC) {")],
 [(DG, "            state = 1 - inputs[0];", "            state = 1 - inputs[K - 1];")],
 [(DG, "                state *= inputs[i];", "                state = state < inputs[i] ? state : inputs[i];")],
 [(DG, "    state = clamp(state, 0, 1);\n", "    state = clamp(state, -1, 1);\n")],
 [(DG, "dgp->state[c - dgp->n_inputs];", "dgp->tmp_state[c - dgp->n_inputs];")],
 [(DG, "            if (c < dgp->n_inputs) {", "            if (c <= dgp->n_inputs) {")],
 [(DG, "        dgp->state[i] = dgp->initial_state[i];", "        dgp->initial_state[i] = dgp->state[i];")],
 [(DG, "    for (int t = 0; t < dgp->t; ++t) {", "    for (int t = 0; t < dgp->max_t; ++t) {")],
 [(DG, "    if (reset) {\n        graph_reset", "    if (!reset) {\n        graph_reset")],
 [(DG, "return rand_uniform_int(0, n_nodes) + n_inputs;", "return rand_uniform_int(0, n_nodes);")],
 [(DG, "        dgp->state[i] = rand_uniform(0, 1);", "        dgp->state[i] = dgp->initial_state[i];")],
 [(DG, "dgp->t + n > dgp->max_t", "dgp->t + n >= dgp->max_t")],
 [(DG, "dgp->evolve_cycles && graph_mutate_cycles", "graph_mutate_cycles")],
 [(DG, "rand_uniform(0, 1) < dgp->mu[1]", "rand_uniform(0, 1) < dgp->mu[0]")],
 [(MX, "env->pos_bits - 1 - i", "i")],
 [(MX, "    const int answer = (env->state[pos] > 0.5) ? 1 : 0;", "    const int answer = (env->state[pos] >= 0.5) ? 1 : 0;")],
 [(MX, "    int pos = env->pos_bits;", "    int pos = env->pos_bits - 1;")],
 [(MZ, "        case 'O':\n            return 0.3;", "        case 'O':\n            return 0.1;")],
 [(MZ, "((env->ypos + y) % env->ysize + env->ysize) % env->ysize;", "((env->ypos + y) % env->xsize + env->ysize) % env->ysize;")],
 [(MZ, "            if (x == 0 && y == 0) {", "            if (x == 0 || y == 0) {")],
 [(MZ, "            env->done = true;\n", "")],
 [(MZ, "    env->done = false;\n", "")],
 [(MZ, "x_moves[] = { 0, +1, +1, +1, 0, -1, -1, -1 }", "x_moves[] = { 0, +1, +1, +1, 0, -1, -1, 0 }")],
 [(MZ, "        case 'O':\n        case 'Q':\n            break;\n        case '*':", "        case 'O':\n            break;\n        case 'Q':\n        case '*':")],
]
KEPT = [
 [(GP, "return (b != 0) ? (a / b) : a;", "if (b == 0) {\n                return a;\n            }\n            return a / b;")],
 [(GP, "    p1->len = tree_traverse(p1->tree, 0);\n    p2->len = tree_traverse(p2->tree, 0);\n", "    p1->len = nlen1;\n    p2->len = nlen2;\n")],
 [(GP, "    const int node = gp->tree[gp->pos];\n    ++(gp->pos);\n", "    const int node = gp->tree[gp->pos++];\n    const int n_fixed = GP_NUM_FUNC + args->n_constants;\n"),
  (GP, "    if (node >= GP_NUM_FUNC + args->n_constants) {\n        return x[node - GP_NUM_FUNC - args->n_constants];", "    if (node >= n_fixed) {\n        return x[node - n_fixed];")],
 [(GP, "    if (tree[pos] >= GP_NUM_FUNC) {", "    const bool terminal = tree[pos] >= GP_NUM_FUNC;\n    if (terminal) {")],
 [(DG, "    for (int i = 0; i < dgp->n; ++i) {\n        dgp->state[i] = dgp->initial_state[i];\n    }", "    memcpy(dgp->state, dgp->initial_state, sizeof(double) * dgp->n);")],
 [(DG, "            if (c < dgp->n_inputs) { // external input\n                dgp->tmp_input[k] = inputs[c];\n            } else { // another node within the graph\n                dgp->tmp_input[k] = dgp->state[c - dgp->n_inputs];\n            }", "            const double v = (c < dgp->n_inputs) ? inputs[c] : dgp->state[c - dgp->n_inputs];\n            dgp->tmp_input[k] = v;")],
 [(DG, "    if (dgp->t + n < 1 || dgp->t + n > dgp->max_t) {\n        return false;\n    }\n    dgp->t += n;\n    return true;", "    const int t = dgp->t + n;\n    if (t >= 1 && t <= dgp->max_t) {\n        dgp->t = t;\n        return true;\n    }\n    return false;")],
 [(MX, "    const int answer = (env->state[pos] > 0.5) ? 1 : 0;\n    return (action == answer) ? MAX_PAYOFF : 0;", "    if ((env->state[pos] > 0.5) == (action == 1) && (action == 0 || action == 1)) {\n        return MAX_PAYOFF;\n    }\n    return 0;")],
 [(MX, "            pos += (int) pow(2, (double) (env->pos_bits - 1 - i));", "            pos += 1 << (env->pos_bits - 1 - i);")],
 [(MX, "    int pos = env->pos_bits;\n    for (int i = 0; i < env->pos_bits; ++i) {\n        if (env->state[i] > 0.5) {\n            pos += (int) pow(2, (double) (env->pos_bits - 1 - i));\n        }\n    }\n", "    int v = 0;\n    for (int i = 0; i < env->pos_bits; ++i) {\n        v = 2 * v + (env->state[i] > 0.5 ? 1 : 0);\n    }\n    const int pos = env->pos_bits + v;\n")],
 [(MZ, "            // convert sensor to real number\n            env->state[spos] = env_maze_sensor(xcsf, s);\n            ++spos;", "            env->state[spos++] = env_maze_sensor(xcsf, s);")],
 [(MZ, "    double reward = 0;\n    switch (env->maze[newy][newx]) {", "    const char target = env->maze[newy][newx];\n    double reward = 0;\n    switch (target) {")],
 [(MZ, "    do {\n        env->xpos = rand_uniform_int(0, env->xsize);\n        env->ypos = rand_uniform_int(0, env->ysize);\n    } while (env->maze[env->ypos][env->xpos] != '*');", "    while (true) {\n        env->xpos = rand_uniform_int(0, env->xsize);\n        env->ypos = rand_uniform_int(0, env->ysize);\n        if (env->maze[env->ypos][env->xpos] == '*') {\n            break;\n        }\n    }")],
]
