T = "deductive verification: contracts on the real functions, verification conditions from their source by pyvc, discharged by z3"
B = " A bounded search on the real code runs beside it for failing inputs; it is not counted as proof."
LEVELS = {
 "C01": (T, "proof", "match against any walk tree, for lines of any length and any number of ways; the actions of the grammar's productions, which elements may match nothing, the children of a node and what it begins with, for any number of parts." + B),
 "C02": (T, "proof", "The multiplier, repeater and optional-block actions for any counts and a term of every class, copies of elements with any number of parts, and the counts an element takes." + B),
 "C03": (T, "proof", "match, fix_sequences and append_matching_sequence for lines of any length and any number of ways, and the dry run of every loop; which tokens follow is left open." + B),
 "C04": (T, "proof", "enter, exit and execute_binding, for stacks of any depth and actions of any length: what runs, when, how often and in which instance; the walk over the matched sequence that calls them is only searched." + B),
 "C05": (T, "proof", "The binding of any number of arguments to any number of parameters; evaluation of the argument expressions is only searched." + B),
 "C06": (T, "proof", "Chains of variables of any length, every named and numbered lookup, assignments of any action, and what enter and exit do to the stacks and the variables of nodes, for stacks of any depth and any number of parameters; which line reaches which action is C04's." + B),
 "C07": (T, "proof", "Both conversions and the lexer's rules, for every string of any length: the functions are executed over finite-state transductions of the input, equality and membership are decided by automata; trusts PLY's application of its rules and Python's re and str methods." + B),
 "C08": (T, "proof", "The lexer's master pattern as PLY built it, the rule functions, the actions of the grammar for lists of any length, and every outcome of parse and tokenize; languages of the patterns are decided by automata for lines of any length; trusts PLY's application of rules and actions and Python's re." + B),
 "C09": (T, "proof", "Keyword and alternatives tokens with any number of alternatives and any input; texts are abstract atoms ordered by 'begins with'; trusts pyvc's reading of Python and the container models." + B),
 "C10": (T, "proof", "RangedIntToken with any bounds and any typed text, modular over its _complete helper; trusts pyvc's reading of Python and the decimal-notation axioms." + B),
 "C11": (T, "proof", "String, ranged string, decimal and boolean tokens for any bounds and any text; trusts pyvc's reading of Python and float() as a function of the text." + B),
 "C12": (T, "proof", "String conversion, token values and token objects after any earlier use of the same cache, and the emptying operations; the value of a token class is a function of the object and the input (built-in classes: C09-C11)." + B),
 "C13": (T, "proof", "Every inline function, for any number of arguments; trusts pyvc's reading of Python and the integer/container models." + B),
 "C14": (T, "proof", "The stack of open files for any depth and any lengths, adding a file of any number of lines, the next line from files or terminal, and the command loop cut at an invariant over the pending text; tokens and results of a line are C08's and C15's." + B),
 "C15": (T, "proof", "Typestate of cmdloop, context_loop, exec_line and match for every outcome (result, exception, cancellation) of every hook, handler, token method and read; user code reaches the stacks only through the functions proved." + B),
 "C16": (T, "proof", "exit_cli, loop, context_loop, set_grammar* and the callback checks for every outcome of the parent, the hooks and the reads; two open findings about parents asked without running anything." + B),
 "C17": (T, "proof", "common_prefix for lists of texts of any number and length (longest common prefix as a lemma over texts by length and characters), set_next_tokens and complete for every matching result, line and suggestion list; readline itself is trusted." + B),
 "C18": (T, "proof", "exec_args for lists of any length of arguments of any length, the rules of the lexer on the pieces of the line, and exec_line down to the list given to the matcher; languages decided by automata; trusts PLY's application of its rules and Python's re and str methods." + B),
 "C19": (T, "proof", "Definitions against arbitrary tables of earlier ones, token lists and parameter lists of any length; parsing of the definition text is PLY's and only searched." + B),
 "C20": (T, "proof", "execute_binding, resolve_argument, evaluate and execute_binding_call for actions of any length, calls with any number of arguments and any function (result or exception); building the calls from grammar text is only searched." + B),
 "C21": (T, "proof", "Tokens' use of the cache and the interface's cache operations for every outcome of the token's code." + B),
}
NOT_APPLICABLE = {}
