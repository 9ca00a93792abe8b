"""Writes /verif/properties.jsonl (run by hand when the list changes)."""
import json
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=["nessaid_cli/" + f for f in files],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where="nessaid_cli/" + b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

p("C01", "A command line is accepted exactly when it is a sentence of the grammar",
  "For every grammar built from keywords, sequences, alternatives, optional blocks, unordered sets, repetitions and grammar references, with keywords none of which begins another, and every non-empty line of keywords typed in full, executing the line reports success or ambiguity exactly when the whole line is a sentence of the grammar. A line that is only a proper prefix of a sentence is reported as partial, and every other line as failure. The tokens offered next after a partial line are exactly those that can continue it to a sentence.",
  ["inputs", "programs"], "all grammars of the stated constructs, all token sequences",
  "The tests run four hand-written command grammars; a wrong first/follow/optional computation shows only for particular nestings of constructs.",
  ["elements.py", "interface.py", "compiler.py"],
  [("mandatory (nullability) of every element class", "elements.py"), ("TreeNode.first / TreeNode.get / child_count", "elements.py"),
   ("LookupToken.next", "elements.py"), ("grammar production actions building the element tree", "compiler.py"), ("CliInterface.match", "interface.py")],
  [("lookup path", "which members of a set or which positions a token was reached through", "nessaid_cli/elements.py LookupToken"),
   ("matching sequences", "all token sequences of the grammar spelling the input so far", "nessaid_cli/interface.py match")],
  ["result of executing a line", "suggestions offered"])

p("C02", "Repetition counts and optional blocks accept exactly the counts they denote",
  "A term multiplied by n matches exactly n repetitions of it, by (m:n) or (n:m) with m<=n exactly the counts from m to n, and an optional block adds the count zero, for all values of m and n and whatever the term itself is. A repetition by zero or by a negative count is rejected when the grammar is compiled.",
  ["inputs", "programs"], "all integers m, n and all terms",
  "No test uses more than one or two literal counts; the branches for 0, 1, equal and unequal bounds each build a different structure.",
  ["compiler.py", "elements.py"],
  [("term multiplier action", "compiler.py"), ("repeater action", "compiler.py"), ("optional rule action", "compiler.py"), ("repeat_count setter, copy", "elements.py")],
  (), ["lines accepted by the compiled grammar"])

p("C03", "Actions run only after a complete, unambiguous match of the whole line",
  "No grammar action and no command handler runs while a line is matched for completion, or when the outcome of executing it is failure, partial or ambiguous. When the outcome is success, exactly one of the ways to match the complete line was executed, exactly once. Where several ways match the line, one is preferred to another only if both consist of the same grammar elements or it fits some word better: exactly where the other does not, or by a completable token where the other has free text.",
  ["inputs", "programs", "histories"], "all grammars, all lines, all token-class behaviours, dry-run or not",
  "Tests look at the outcome of a few commands; they do not observe side effects of rejected, partial, ambiguous or merely completed lines.",
  ["interface.py", "cli.py"],
  [("CliInterface.match deciding stage", "interface.py"), ("fix_sequences", "interface.py"), ("execute_success_sequence", "interface.py")],
  [("executing", "true only while actions of a matched line run", "nessaid_cli/interface.py")], ["calls into the command object"])

p("C04", "Actions of a matched command run in grammar order, once per matched element",
  "When a line is executed, the action before an element runs when the element is first entered and the action after it runs when the element is left, each exactly once per matched occurrence, in left-to-right order and properly nested. Elements that matched no token run none of their actions.",
  ["inputs", "programs"], "all grammars with actions at every element, all sentences",
  "The tests bind one action per command; ordering over nested optional, repeated, unordered and referenced blocks is not observed.",
  ["interface.py"],
  [("ExecContext.enter/exit", "interface.py"), ("execute_binding", "interface.py"), ("execute_success_sequence", "interface.py")],
  [("element stack and its path index", "elements entered and not yet left", "nessaid_cli/interface.py ExecContext")], ["order of calls made by actions"])

p("C05", "Grammar arguments bind to exactly the parameters they name",
  "Referencing a grammar with arguments binds the i-th positional argument to the i-th parameter, each keyword argument to the parameter of that name, and every remaining parameter to its default value or to None. Too many arguments, an unknown or repeated keyword, and a positional argument after a keyword one are rejected with an argument error.",
  ["inputs", "programs"], "all parameter lists with distinct names and all argument lists",
  "No test passes keyword arguments or defaults.",
  ["elements.py"], [("map_grammar_arguments", "elements.py"), ("NamedGrammar parameter check", "elements.py")], (), ["values seen by actions of the referenced grammar"])

p("C06", "Variables are local to a grammar instance; arguments are passed by reference",
  "A variable assigned in an action is visible, with its last value, to the later actions of the same grammar instance and to no other instance. A variable that has a value, passed as argument and assigned in the referenced grammar, has the new value in the caller afterwards, through any depth of references; literals passed as arguments are not affected.",
  ["inputs", "programs", "histories"], "all reference depths, all interleavings of assignments and reads",
  "The tests do not nest parametrised grammars.",
  ["interface.py", "binding_parser/binding_objects.py"],
  [("BindingVariable.assign/value", "binding_parser/binding_objects.py"), ("ExecContext.resolve_variable, enter", "interface.py"), ("execute_binding assignment", "interface.py")],
  (), ["values passed to functions called by actions"])

p("C07", "Every string survives the round trip through the command-line notation",
  "Converting any string that does not begin or end with a double quote to its command-line notation and back yields the same string. Two different such strings never have the same notation, and the notation is always a single token that the tokenizer accepts, unless the string is empty.",
  ["inputs"], "all strings of any length over all characters",
  "The tests convert a handful of strings; escapes interact (backslash before an escapable letter, runs of backslashes) in ways only specific strings show.",
  ["utils.py", "tokenizer/tokenizer.py"],
  [("convert_to_cli_string", "utils.py"), ("convert_to_python_string", "utils.py"), ("token regular expressions", "tokenizer/tokenizer.py")], (), ["result of the two conversions"])

p("C08", "Tokenizing a line loses, invents and reorders nothing",
  "For every line the tokenizer accepts, the tokens in order, with the blanks between them, are exactly the text of the line: each token is the slice of the line at its recorded position, blanks separate tokens only outside quotes, and a quoted token is marked quoted and, exactly when its closing quote is missing, incomplete. A line it does not accept is reported as an error and yields no tokens.",
  ["inputs"], "all lines of any length over all characters",
  "The test tokenizes five fixed lines.",
  ["tokenizer/tokenizer.py", "cli.py", "utils.py"],
  [("token regular expressions", "tokenizer/tokenizer.py"), ("token list actions", "tokenizer/tokenizer.py"), ("NessaidCli.tokenize", "cli.py")], (), ["tokens of a line"])

p("C09", "Keywords and alternatives match, complete and evaluate by unique prefix",
  "A keyword succeeds on exactly its own text, is partial on its proper prefixes and fails on everything else; a set of alternatives succeeds exactly on a member or on a prefix of exactly one member, is partial on a prefix of several and fails otherwise. The completions offered are exactly the candidates that extend the input, and the value of an input is the one candidate it determines, or none.",
  ["inputs"], "all keywords, all lists of alternatives, all inputs",
  "Tests use a few fixed keywords, none of them a prefix of another.",
  ["tokens.py"],
  [("CliToken.match/complete/get_value", "tokens.py"), ("match_from_multiple, complete_from_multiple", "tokens.py"), ("AlternativeStringsToken", "tokens.py")], (), ["match, complete and value of a token"])

p("C10", "Ranged integers accept exactly the range and complete exactly the prefix",
  "An integer token with any bounds has a value for an input exactly when the input is a decimal integer within the bounds, namely that integer. For typed text without redundant leading zeros, the completions it lists are exactly the integers in the range whose decimal notation begins with the text, each once, or, when they are more than the suggestion limit, it lists none of them and reports too many; the input fails exactly when there are none.",
  ["inputs"], "all integer bounds, all non-negative suggestion limits, all inputs",
  "Tests use one small positive range; the digit arithmetic has separate cases for equal and different digit counts, for zero and for negative numbers.",
  ["tokens.py"],
  [("RangedIntToken.get_value", "tokens.py"), ("RangedIntToken._complete", "tokens.py"), ("RangedIntToken.complete/match", "tokens.py")], (), ["value, match result and completions"])

p("C11", "String, ranged-string, decimal and boolean tokens accept exactly their domain",
  "A ranged string has a value exactly when its unquoted length is within its bounds, a ranged decimal exactly when the input denotes a number within its bounds, and a boolean exactly on a non-empty prefix of true or false in any letter case; the value is the text without its quotes, that number, or that truth value. An input that has a value is never reported as a failed match, and a ranged string longer than its bound or a decimal beyond the bound on its own side of zero always is.",
  ["inputs"], "all bounds, all inputs",
  "The tests try a few lengths of one ranged string and no decimal or boolean.",
  ["tokens.py"],
  [("StringToken, RangedStringToken", "tokens.py"), ("RangedDecimalToken", "tokens.py"), ("BooleanToken", "tokens.py")], (), ["value and match result of a token"])

p("C12", "Caching never changes a result",
  "The value of an input for a token, the token object for a name and the conversion of a notation to a string are the same whether or not they were computed before, in whatever order other inputs were processed, and however often the caches were emptied.",
  ["inputs", "histories"], "all sequences of lookups and cache evictions",
  "Every test starts with fresh caches and never exceeds them.",
  ["interface.py", "utils.py"],
  [("get_token_value cache", "interface.py"), ("get_token cache", "interface.py"), ("convert_to_python_string cache", "utils.py"), ("clear_caches", "interface.py")],
  [("token value cache, string cache, token table", "memoised results", "nessaid_cli/interface.py")], ["results of repeated lookups"])

p("C13", "Inline functions compute what they document",
  "In actions, list(...) and set(...) hold exactly their arguments, dict() is empty, append adds exactly the given items to a list or set and returns it, update stores exactly one key, add returns the sum of all its arguments, and inc and dec return the argument plus and minus one. Every call returns a container of its own: no two list(), set() or dict() calls share one.",
  ["inputs"], "all argument values and numbers of arguments",
  "No test calls the inline functions.",
  ["interface.py"], [("resolve_local_function_call", "interface.py")], (), ["results of inline functions"])

p("C14", "Script lines run once, in order, with comments and continuations handled",
  "The lines of script files are delivered each exactly once and in order, a script added while another is being read is delivered completely before the rest of the earlier one, and empty scripts change nothing. Lines ending in a backslash are joined with the following ones, comment lines are never executed, and everything else reaches the matcher unchanged.",
  ["inputs", "histories"], "all file contents, all nestings of scripts, all sequences of lines",
  "No test runs a script file.",
  ["cli.py"],
  [("file_line, add_file_to_execute, get_next_line", "cli.py"), ("is_partial_line, commented_line", "cli.py"), ("cmdloop line assembly", "cli.py")],
  [("file stack", "remaining lines of every open script", "nessaid_cli/cli.py")], ["lines given to the matcher"])

p("C15", "The grammar stack and running state are restored however a command or loop ends",
  "After executing a line, and after a command loop ends, the stack of active grammars and the stack of running command loops are what they were before, and no action is recorded as executing, whether it ended normally, by an error in a token class, an action, a handler or a hook, or by cancellation. While a loop runs, its grammar is the active one.",
  ["inputs", "histories", "fault_sequences"], "all outcomes of every called hook, handler and token method, including exceptions",
  "Tests only run commands that succeed or fail regularly.",
  ["cmd.py", "cli.py", "interface.py"],
  [("NessaidCmd.exec_line", "cmd.py"), ("NessaidCli.cmdloop", "cli.py"), ("enter_grammar/exit_grammar", "interface.py"), ("executing flag", "interface.py")],
  [("grammar stack, cli stack", "active grammars and running loops", "nessaid_cli/interface.py, cli.py")], ["state after a command"])

p("C16", "A nested context hands a line to its parent exactly when the rule says so",
  "With parent matching off, or when the line matches in the child, the child's own result is final. With it on, a line that fails in the child goes to the parent exactly when it does not fail there, and a line that is partial or ambiguous in the child goes to the parent exactly when it succeeds there; for completion this returns the parent's result, for execution it leaves the child after its exit hook ran, without running anything in the parent before that.",
  ["inputs", "configurations", "histories"], "all pairs of child and parent outcomes, both modes",
  "No test uses nested contexts.",
  ["cmd.py", "cli.py"], [("NessaidCmd.match", "cmd.py"), ("child exit handling in cmdloop", "cli.py")], (), ["result or hand-over of a line in a child context"])

p("C17", "Completion only offers and inserts text that continues what was typed",
  "The common prefix inserted on completion is the longest common prefix of all the suggestions, so it is a prefix of each of them. Text is inserted into the line only as the remainder of that prefix or of the only suggestion after what was typed, or as a separating blank, and the help text of a token without suggestions is never inserted, so completion never alters text already typed. In a continued line it only joins the line with the lines before.",
  ["inputs", "histories"], "all sets of suggestions, all typed lines, all sequences of TAB presses",
  "No test exercises completion text.",
  ["interface.py", "cli.py"],
  [("common_prefix", "interface.py"), ("set_next_tokens", "interface.py"), ("NessaidCli.complete", "cli.py")], (), ["text inserted into the edited line"])

p("C18", "Arguments given as a list reach the matcher unchanged, one token each",
  "Executing a list of arguments on a command object matches exactly one token per argument, with the argument as its text, in order, for all lists of arguments that are not blank and are free of quotes, backslashes and control characters; blanks inside an argument do not split it (a quoted token's text being what stands between its quotes).",
  ["inputs"], "all argument lists of the stated form",
  "No test executes an argument list.",
  ["cmd.py", "cli.py", "tokenizer/tokenizer.py"], [("exec_args", "cmd.py"), ("token regular expressions", "tokenizer/tokenizer.py")], (), ["tokens given to the matcher"])

p("C19", "A name is defined at most once, and a rejected definition changes nothing",
  "A grammar or token definition whose name is already defined as a grammar or as a token is rejected with a duplicate-definition error and leaves all existing definitions as they were; any other definition is recorded under its name and changes no other name. A grammar with two parameters of the same name is rejected.",
  ["inputs", "histories"], "all sequences of definitions",
  "No test defines a name twice.",
  ["elements.py", "compiler.py"], [("GrammarSpecification.add_grammar/add_token_def", "elements.py"), ("NamedGrammar.__init__", "elements.py")],
  [("named grammars, token definitions", "what each name means", "nessaid_cli/elements.py")], ["result of compiling a grammar"])

p("C20", "Calls in actions reach exactly the named function with the evaluated arguments",
  "A call in an action invokes the function of the command object that the hook naming gives for its name, once, with the values of its arguments in order, and a plain call the inline function of that name; its result is the value of the call. A missing function or one that raises makes the call yield nothing and is reported, and the following actions still run.",
  ["inputs", "programs", "fault_sequences"], "all names, argument lists and function behaviours, synchronous or not",
  "Tests have a few well-behaved handlers.",
  ["interface.py"], [("execute_binding_call", "interface.py"), ("ExecContext.resolve_argument/evaluate", "interface.py"), ("execute_binding", "interface.py")], (), ["calls received by the command object"])

p("C21", "Failures of user code never escape, and the exit status tells success",
  "Executing a line returns zero when the line matched successfully and a non-zero status when it did not or when a hook that runs after the match raised, and never raises an ordinary exception, whatever the line is and whatever token classes, hooks or handlers raise. A token class that raises counts as not matching, having no completions and having no value.",
  ["inputs", "fault_sequences"], "all lines, all exceptions raised by user code",
  "Tests raise no exception from user code and look at few statuses.",
  ["cmd.py", "cli.py", "interface.py"],
  [("exec_line", "cmd.py"), ("exec_line", "cli.py"), ("match_token, complete_token, get_token_value", "interface.py")], (), ["status of an executed line"])

if __name__ == "__main__":
    with open("/verif/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
