#undef C
#define C(name) static clingo_ast_argument clingo_ast_argument_##name[] =
#define A(name, type) {clingo_ast_attribute_##name, clingo_ast_attribute_type_##type}
#define E(name) {#name, clingo_ast_argument_##name, sizeof(clingo_ast_argument_##name) / sizeof(clingo_ast_argument_t)}

// terms
C(id){A(location, location), A(name, string)};
C(variable){A(location, location), A(name, string)};
C(symbolic_term){A(location, location), A(symbol, symbol)};
C(unary_operation){A(location, location), A(operator_type, number), A(argument, ast)};
C(binary_operation){A(location, location), A(operator_type, number), A(left, ast), A(right, ast)};
C(interval){A(location, location), A(left, ast), A(right, ast)};
C(function){A(location, location), A(name, string), A(arguments, ast_array), A(external, number)};
C(pool){A(location, location), A(arguments, ast_array)};
// simple atoms
C(boolean_constant){A(value, number)};
C(symbolic_atom){A(symbol, ast)};
C(comparison){A(term, ast), A(guards, ast_array)};
// aggregates
C(guard){A(comparison, number), A(term, ast)};
C(conditional_literal){A(location, location), A(literal, ast), A(condition, ast_array)};
C(aggregate){A(location, location), A(left_guard, optional_ast), A(elements, ast_array), A(right_guard, optional_ast)};
C(body_aggregate_element){A(terms, ast_array), A(condition, ast_array)};
C(body_aggregate){A(location, location), A(left_guard, optional_ast), A(function, number), A(elements, ast_array),
                  A(right_guard, optional_ast)};
C(head_aggregate_element){A(terms, ast_array), A(condition, ast)};
C(head_aggregate){A(location, location), A(left_guard, optional_ast), A(function, number), A(elements, ast_array),
                  A(right_guard, optional_ast)};
C(disjunction){A(location, location), A(elements, ast_array)};
// theory atoms
C(theory_sequence){A(location, location), A(sequence_type, number), A(terms, ast_array)};
C(theory_function){A(location, location), A(name, string), A(arguments, ast_array)};
C(theory_unparsed_term_element){A(operators, string_array), A(term, ast)};
C(theory_unparsed_term){A(location, location), A(elements, ast_array)};
C(theory_guard){A(operator_name, string), A(term, ast)};
C(theory_atom_element){A(terms, ast_array), A(condition, ast_array)};
C(theory_atom){A(location, location), A(term, ast), A(elements, ast_array), A(guard, optional_ast)};
// literals
C(literal){A(location, location), A(sign, number), A(atom, ast)};
// theory definition
C(theory_operator_definition){A(location, location), A(name, string), A(priority, number), A(operator_type, number)};
C(theory_term_definition){A(location, location), A(name, string), A(operators, ast_array)};
C(theory_guard_definition){A(operators, string_array), A(term, string)};
C(theory_atom_definition){A(location, location), A(atom_type, number), A(name, string),
                          A(arity, number),      A(term, string),      A(guard, optional_ast)};
// statemets
C(rule){A(location, location), A(head, ast), A(body, ast_array)};
C(definition){A(location, location), A(name, string), A(value, ast), A(is_default, number)};
C(show_signature){A(location, location), A(name, string), A(arity, number), A(positive, number)};
C(show_term){A(location, location), A(term, ast), A(body, ast_array)};
C(minimize){A(location, location), A(weight, ast), A(priority, ast), A(terms, ast_array), A(body, ast_array)};
C(script){A(location, location), A(name, string), A(code, string)};
C(program){A(location, location), A(name, string), A(parameters, ast_array)};
C(external){A(location, location), A(atom, ast), A(body, ast_array), A(external_type, ast)};
C(edge){A(location, location), A(node_u, ast), A(node_v, ast), A(body, ast_array)};
C(heuristic){A(location, location), A(atom, ast), A(body, ast_array), A(bias, ast), A(priority, ast), A(modifier, ast)};
C(project_atom){A(location, location), A(atom, ast), A(body, ast_array)};
C(project_signature){A(location, location), A(name, string), A(arity, number), A(positive, number)};
C(defined){A(location, location), A(name, string), A(arity, number), A(positive, number)};
C(theory_definition){A(location, location), A(name, string), A(terms, ast_array), A(atoms, ast_array)};
C(comment){A(location, location), A(value, string), A(comment_type, number)};

static clingo_ast_constructor_t const clingo_ast_constructor_list[] = {
    // terms
    E(id), E(variable), E(symbolic_term), E(unary_operation), E(binary_operation), E(interval), E(function), E(pool),
    // simple atoms
    E(boolean_constant), E(symbolic_atom), E(comparison),
    // aggregates
    E(guard), E(conditional_literal), E(aggregate), E(body_aggregate_element), E(body_aggregate),
    E(head_aggregate_element), E(head_aggregate), E(disjunction),
    // theory atoms
    E(theory_sequence), E(theory_function), E(theory_unparsed_term_element), E(theory_unparsed_term), E(theory_guard),
    E(theory_atom_element), E(theory_atom),
    // literals
    E(literal),
    // theory definition
    E(theory_operator_definition), E(theory_term_definition), E(theory_guard_definition), E(theory_atom_definition),
    // statemets
    E(rule), E(definition), E(show_signature), E(show_term), E(minimize), E(script), E(program), E(external), E(edge),
    E(heuristic), E(project_atom), E(project_signature), E(defined), E(theory_definition), E(comment)};

extern "C" clingo_ast_constructors_t g_clingo_ast_constructors = {
    clingo_ast_constructor_list, sizeof(clingo_ast_constructor_list) / sizeof(clingo_ast_constructor_t)};

static char const *attribute_list[] = {
    "argument",      "arguments",     "arity",        "atom",       "atoms",     "atom_type",  "bias",
    "body",          "code",          "coefficient",  "comparison", "condition", "elements",   "external",
    "external_type", "function",      "guard",        "guards",     "head",      "is_default", "left",
    "left_guard",    "literal",       "location",     "modifier",   "name",      "node_u",     "node_v",
    "operator_name", "operator_type", "operators",    "parameters", "positive",  "priority",   "right",
    "right_guard",   "sequence_type", "sign",         "symbol",     "term",      "terms",      "value",
    "variable",      "weight",        "comment_type",
};

extern "C" clingo_ast_attribute_names_t g_clingo_ast_attribute_names = {attribute_list,
                                                             sizeof(attribute_list) / sizeof(char const *)};

#undef E
#undef A
#undef C
