CHECK = 'C08'
P = 'xcsf/param.c'
BROKEN = [
 # 0 limit excluded
 [(P, "    if (a < 0 || a > 1) {\n        return \"Invalid BETA", "    if (a <= 0 || a > 1) {\n        return \"Invalid BETA")],
 # 1 upper limit dropped
 [(P, "    if (a < 0 || a > 1) {\n        return \"Invalid GAMMA", "    if (a < 0) {\n        return \"Invalid GAMMA")],
 # 2 stored before check
 [(P, "    if (a < 0) {\n        return \"E0 must be >= 0\";\n    }\n    xcsf->E0 = a;\n", "    xcsf->E0 = a;\n    if (a < 0) {\n        return \"E0 must be >= 0\";\n    }\n")],
 # 3 clamped silently
 [(P, "    if (a < 1) {\n        return \"POP_SIZE must be > 0\";\n    }\n    xcsf->POP_SIZE = a;", "    xcsf->POP_SIZE = a < 1 ? 1 : a;")],
 # 4 error not examined
 [(P, "catch_error(param_set_y_dim(xcsf, json->valueint));", "param_set_y_dim(xcsf, json->valueint);")],
 # 5 catch_error does not exit
 [('xcsf/utils.c', "exit(EXIT_FAILURE)", "return")],
 # 6 version: &&
 [('xcsf/xcsf.c', "if (major != VERSION_MAJOR || minor != VERSION_MINOR) {", "if (major != VERSION_MAJOR && minor != VERSION_MINOR) {")],
 # 7 version only newer refused
 [('xcsf/xcsf.c', "minor != VERSION_MINOR", "minor > VERSION_MINOR")],
 # 8 bad type name ignored
 [(P, "        printf(\"Invalid prediction type\\n\");\n        printf(\"Options: {%s}\\n\", PRED_TYPE_OPTIONS);\n        exit(EXIT_FAILURE);", "        printf(\"Invalid prediction type\\n\");\n        printf(\"Options: {%s}\\n\", PRED_TYPE_OPTIONS);")],
 # 9 unknown loss stored
 [(P, "    if (loss != LOSS_INVALID) {\n        xcsf->LOSS_FUNC = loss;", "    xcsf->LOSS_FUNC = loss;\n    if (loss != LOSS_INVALID) {")],
 # 10 unknown cond type stored
 [('xcsf/condition.c', "    if (type != COND_TYPE_INVALID) {\n        xcsf->cond->type = type;\n    }\n    return type;", "    xcsf->cond->type = type;\n    return type;")],
 # 11 lambda
 [('xcsf/ea.c', "    if (a < 2) {", "    if (a < 1) {")],
 # 12 bits
 [('xcsf/condition.c', "    if (a < 1) {\n        printf(\"Warning: tried to set COND BITS too small\\n\");", "    if (a < 0) {\n        printf(\"Warning: tried to set COND BITS too small\\n\");")],
 # 13 import bypasses setter
 [('xcsf/condition.c', "cond_param_set_eta(xcsf, iter->valuedouble)", "xcsf->cond->eta = iter->valuedouble")],
 # 14 message
 [(P, "Invalid OMP_NUM_THREADS. Range: [1,1000]", "Invalid OMP_NUM_THREADS. Range: [1,100]")],
 # 15 threads limit
 [(P, "a < 1 || a > 1000", "a < 0 || a > 1000")],
 # 16 n_actions in python init wrapper unchecked
 [('xcsf/xcsf.c', "catch_error(param_set_y_dim(xcsf, y_dim));", "xcsf->y_dim = y_dim;")],
 # 17 import truncates before check: -0.5 becomes 0
 [(P, "catch_error(param_set_e0(xcsf, json->valuedouble))", "catch_error(param_set_e0(xcsf, json->valueint))")],
 # 18 ea type
 [('xcsf/ea.c', "    const int type = ea_type_as_int(a);\n    if (type != EA_SELECT_INVALID) {\n        xcsf->ea->select_type = type;\n        return type;\n    }", "    const int type = ea_type_as_int(a);\n    xcsf->ea->select_type = type;\n    if (type != EA_SELECT_INVALID) {\n        return type;\n    }")],
 # 19 eta upper clamp to wrong value
 [('xcsf/prediction.c', "        printf(\"Warning: tried to set PRED ETA_MIN too large\\n\");\n        xcsf->pred->eta_min = 1;", "        printf(\"Warning: tried to set PRED ETA_MIN too large\\n\");\n        xcsf->pred->eta_min = a;")],
 # 20 param_init direct store of n_actions
 [(P, "catch_error(param_set_n_actions(xcsf, n_actions))", "xcsf->n_actions = n_actions")],
 # 21 load: dims unchecked
 [(P, "    if (xcsf->x_dim < 1 || xcsf->y_dim < 1 || xcsf->n_actions < 1) {\n        printf(\"param_load(): read error\\n\");\n        exit(EXIT_FAILURE);\n    }\n    s += fread(&xcsf->OMP", "    s += fread(&xcsf->OMP")],
 # 22 activation name invalid accepted
 [('xcsf/neural_activations.c', "    printf(\"neural_activation_as_int(): invalid activation: %s\\n\", a);\n    exit(EXIT_FAILURE);", "    return LINEAR;")],
 # 23 parse error ignored
 [('xcsf/utils.h', '        printf("%s\\n", ret);\n        exit(EXIT_FAILURE);', '        printf("%s\\n", ret);')],
]
KEPT = [
 [(P, "    if (a < 0 || a > 1) {\n        return \"Invalid BETA. Range: [0,1]\";\n    }\n    xcsf->BETA = a;\n    return NULL;", "    if (a >= 0 && a <= 1) {\n        xcsf->BETA = a;\n        return NULL;\n    }\n    return \"Invalid BETA. Range: [0,1]\";")],
 [(P, "    if (a < 1) {\n        return \"POP_SIZE must be > 0\";", "    if (a <= 0) {\n        return \"POP_SIZE must be > 0\";")],
 [(P, "static bool\nparam_json_import_multi(", "static bool\nunit(const double a)\n{\n    return a >= 0 && a <= 1;\n}\n\nstatic bool\nparam_json_import_multi("),
  (P, "    if (a < 0 || a > 1) {\n        return \"Invalid GAMMA", "    if (!unit(a)) {\n        return \"Invalid GAMMA")],
 [('xcsf/condition.c', "    if (a < 0) {\n        printf(\"Warning: tried to set COND SPREAD_MIN too small\\n\");\n        xcsf->cond->spread_min = 0;\n    } else {\n        xcsf->cond->spread_min = a;\n    }", "    if (a < 0) {\n        printf(\"Warning: tried to set COND SPREAD_MIN too small\\n\");\n    }\n    xcsf->cond->spread_min = a < 0 ? 0 : a;")],
 [('xcsf/condition.c', "    if (a < 0) {\n        printf(\"Warning: tried to set COND SPREAD_MIN too small\\n\");\n        xcsf->cond->spread_min = 0;\n    } else {\n        xcsf->cond->spread_min = a;\n    }", "    double v = a;\n    if (a < 0) {\n        printf(\"Warning: tried to set COND SPREAD_MIN too small\\n\");\n        v = 0;\n    }\n    xcsf->cond->spread_min = v;")],
 [('xcsf/xcsf.c', "    if (major != VERSION_MAJOR || minor != VERSION_MINOR) {", "    const bool same = major == VERSION_MAJOR && minor == VERSION_MINOR;\n    if (!same) {")],
 [(P, "catch_error(param_set_e0(xcsf, json->valuedouble));", "const char *err = param_set_e0(xcsf, json->valuedouble);\n        catch_error(err);")],
]
