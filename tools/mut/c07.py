CHECK = 'C07'
A = 'xcsf/neural_layer_args.c'
P = 'xcsf/param.c'
BROKEN = [
 # 0 wrong member
 [(A, "args->recurrent_function = neural", "args->function = neural")],
 # 1 integer truncation
 [(P, "param_set_gamma(xcsf, json->valuedouble)", "param_set_gamma(xcsf, json->valueint)")],
 # 2 bool inverted
 [(A, "args->evolve_connect = true ? json->type == cJSON_True : false", "args->evolve_connect = true ? json->type == cJSON_False : false")],
 # 3 key mismatch on export
 [('xcsf/ea.c', '"theta_ea", xcsf', '"theta", xcsf')],
 # 4 not exported
 [(P, '    cJSON_AddNumberToObject(json, "m_probation", xcsf->M_PROBATION);\n', '')],
 # 5 exported only conditionally
 [(P, '    cJSON_AddBoolToObject(json, "stateful", xcsf->STATEFUL);\n', '    if (xcsf->STATEFUL) {\n        cJSON_AddBoolToObject(json, "stateful", xcsf->STATEFUL);\n    }\n')],
 # 6 unknown key silently skipped (layers)
 [(A, "        return iter->string;\n    }\n    return NULL;\n}\n\n/**\n * @brief Frees", "    }\n    return NULL;\n}\n\n/**\n * @brief Frees")],
 # 7 wrong kind accepted
 [(A, 'if (strncmp(json->string, "evolve_weights\\0", 15) == 0 &&\n        cJSON_IsBool(json)) {', 'if (strncmp(json->string, "evolve_weights\\0", 15) == 0) {')],
 # 8 prefix
 [(A, 'strncmp(json->string, "eta\\0", 4)', 'strncmp(json->string, "eta\\0", 3)')],
 # 9 shadowed key: pad before padding... condition min prefix
 [('xcsf/condition.c', 'strncmp(iter->string, "min\\0", 4)', 'strncmp(iter->string, "min\\0", 2)')],
 # 10 swapped setters
 [('xcsf/condition.c', "cond_param_set_max(xcsf, iter->valuedouble)", "cond_param_set_min(xcsf, iter->valuedouble)")],
 # 11 return value ignored: unknown condition args
 [(P, '''            printf("Invalid condition parameter %s\\n", ret);
            exit(EXIT_FAILURE);
''', '''            printf("Invalid condition parameter %s\\n", ret);
''')],
 # 12 exported value is another member
 [(P, 'json, "init_error", xcsf->INIT_ERROR', 'json, "init_error", xcsf->E0')],
 # 13 export of ellipsoid args lost
 [('xcsf/condition.c', "        case COND_TYPE_HYPERELLIPSOID:\n        case COND_TYPE_HYPERRECTANGLE_CSR:\n        case COND_TYPE_HYPERRECTANGLE_UBR:\n            json_str", "        case COND_TYPE_HYPERRECTANGLE_CSR:\n        case COND_TYPE_HYPERRECTANGLE_UBR:\n            json_str")],
 # 14 import of rule_dgp args lost
 [('xcsf/condition.c', "        case COND_TYPE_DGP:\n        case RULE_TYPE_DGP:\n            ret = ", "        case COND_TYPE_DGP:\n            ret = ")],
 # 15 export inhibited for a layer type
 [(A, "if (args->type == NOISE || args->type == SOFTMAX) {", "if (args->type == SOFTMAX) {")],
 # 16 noise scale truncated
 [(A, "args->scale = json->valuedouble", "args->scale = (float) json->valuedouble")],
 # 17 stride/pad swapped on import
 [(A, "args->stride = json->valueint", "args->pad = json->valueint")],
 # 18 setter stores into other member
 [('xcsf/ea.c', "xcsf->ea->fit_reduc = a;", "xcsf->ea->err_reduc = a;")],
 # 19 exported with wrong condition: eta_min only if !evolve
 [('xcsf/pred_nlms.c', "    if (pred->evolve_eta) {\n        cJSON_AddNumberToObject(json, \"eta_min\"", "    if (!pred->evolve_eta) {\n        cJSON_AddNumberToObject(json, \"eta_min\"")],
 # 20 layers imported in reverse order
 [('xcsf/cond_neural.c', "            struct ArgsLayer *layer_iter = xcsf->cond->largs;\n            while (layer_iter->next != NULL) {\n                layer_iter = layer_iter->next;\n            }\n            layer_iter->next = larg;\n", "            larg->next = xcsf->cond->largs;\n            xcsf->cond->largs = larg;\n")],
 # 21 layers appended to old ones
 [('xcsf/pred_neural.c', "    layer_args_free(&xcsf->pred->largs);\n    for", "    for")],
 # 22 layer name numbering: same key for all layers
 [(A, 'snprintf(name, 256, "layer_%d", cnt);\n        ++cnt;', 'snprintf(name, 256, "layer_%d", cnt);')],
 # 23 setter modifies value
 [('xcsf/condition.c', "    xcsf->cond->spread_min = a;", "    xcsf->cond->spread_min = a > 1 ? 1 : a;")],
 # 24 rounding
 [('xcsf/ea.c', 'catch_error(ea_param_set_theta(xcsf, iter->valuedouble))', 'catch_error(ea_param_set_theta(xcsf, iter->valueint))')],
 # 25 EA unknown key skip
 [('xcsf/ea.c', '            printf("Error importing EA parameter %s\\n", iter->string);\n            exit(EXIT_FAILURE);\n', '            printf("Error importing EA parameter %s\\n", iter->string);\n')],
 # 26 first key only (break after first)
 [('xcsf/gp.c', "    for (cJSON *iter = json; iter != NULL; iter = iter->next) {", "    for (cJSON *iter = json->next; iter != NULL; iter = iter->next) {")],
 # 27 eta_min exported only with decay
 [(A, '        cJSON_AddNumberToObject(json, "decay", args->decay);\n    }', '    }\n    if (args->evolve_eta) {\n        cJSON_AddNumberToObject(json, "decay", args->decay);\n    }')],
 # 28 action args not exported
 [('xcsf/action.c', "        json_str = layer_args_json_export(xcsf->act->largs);", "            json_str = NULL;")],
 # 29 negative range lost
 [(P, 'cJSON_AddNumberToObject(json, "random_state", xcsf->RANDOM_STATE)', 'cJSON_AddNumberToObject(json, "random_state", xcsf->RANDOM_STATE < 0 ? 0 : xcsf->RANDOM_STATE)')],
]
KEPT = [
 [(A, "args->evolve_connect = true ? json->type == cJSON_True : false", "args->evolve_connect = cJSON_IsTrue(json)")],
 [(A, "args->evolve_connect = true ? json->type == cJSON_True : false", "args->evolve_connect = (json->type == cJSON_True)")],
 [(A, 'if (strncmp(json->string, "height\\0", 7) == 0 && cJSON_IsNumber(json)) {', 'if (strcmp(json->string, "height") == 0 && cJSON_IsNumber(json)) {')],
 [(A, 'if (strncmp(json->string, "height\\0", 7) == 0 && cJSON_IsNumber(json)) {', 'if (cJSON_IsNumber(json) && strncmp(json->string, "height\\0", 7) == 0) {')],
 [(P, '    cJSON_AddNumberToObject(json, "m_probation", xcsf->M_PROBATION);\n    cJSON_AddBoolToObject(json, "stateful", xcsf->STATEFUL);\n', '    cJSON_AddBoolToObject(json, "stateful", xcsf->STATEFUL);\n    cJSON_AddNumberToObject(json, "m_probation", xcsf->M_PROBATION);\n')],
 [(P, "static bool\nparam_json_import_multi(", "static bool\nis_key(const cJSON *json, const char *key)\n{\n    return strcmp(json->string, key) == 0;\n}\n\nstatic bool\nparam_json_import_multi("),
  (P, 'strncmp(json->string, "gamma\\0", 6) == 0', 'is_key(json, "gamma")')],
 [(P, "        if (strncmp(iter->string, \"ea\\0\", 3) == 0) {\n            ea_param_json_import(xcsf, iter->child);\n            continue;\n        }\n", ""),
  (P, "        printf(\"Error: unable to import parameter: %s\\n\", iter->string);\n        exit(EXIT_FAILURE);\n    }\n    cJSON_Delete(json);", "        if (strncmp(iter->string, \"ea\\0\", 3) == 0) {\n            ea_param_json_import(xcsf, iter->child);\n        } else {\n            printf(\"Error: unable to import parameter: %s\\n\", iter->string);\n            exit(EXIT_FAILURE);\n        }\n    }\n    cJSON_Delete(json);")],
 [('xcsf/ea.c', '    if (xcsf->ea->select_type == EA_SELECT_TOURNAMENT) {\n        cJSON_AddNumberToObject(json, "select_size", xcsf->ea->select_size);', '    const struct ArgsEA *ea = xcsf->ea;\n    if (ea->select_type == EA_SELECT_TOURNAMENT) {\n        cJSON_AddNumberToObject(json, "select_size", ea->select_size);')],
 [('xcsf/ea.c', '    cJSON_AddNumberToObject(json, "lambda", xcsf->ea->lambda);', '    cJSON_AddItemToObject(json, "lambda", cJSON_CreateNumber(xcsf->ea->lambda));')],
]
