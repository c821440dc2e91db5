#!/usr/bin/env python3
"""Writes properties.jsonl. One P(...) per property; kept as a program so that the
long lines stay reviewable."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
rows = []
def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    rows.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

P("C01", "Every command-line token is bound exactly once, by the option grammar",
  "When a command line is accepted, every token after the program name is accounted for exactly once, in order: as a use of the flag it names (long, short, alias, grouped short flags, attached or separate value), as a value of one positional argument, or as the `--` separator, and the recorded uses, values and names given back to the program are exactly those. When it is not accepted, the error has the class that the grammar prescribes for the first offending token (unknown option, value given to a flag that takes none, missing value, unexpected argument, flag after arguments).",
  ["inputs", "configurations"],
  "Every set of declared flags (Boolean, single value, list, optional value, with any aliases), positional arguments and parse options, and every token sequence.",
  "The tests pin a few dozen hand-picked command lines; the grammar is a state machine over token sequences whose interactions (grouping x optional values x `=` x `--` x intermixed positionals) they do not enumerate.",
  ["set.go", "arg.go", "flag.go", "error.go"],
  [("RawParse main loop", "set.go RawParse"), ("alias resolution", "set.go ResolveAlias"), ("occurrence log", "set.go appendOutput/lookup"), ("argList.take", "set.go take")],
  [("bindings", "occurrences of each flag/arg in order", "set.go BindingMap"), ("state", "whether flags are still recognised", "set.go RawParse"), ("index", "current positional", "set.go argBinding")],
  ["Context.Raw", "Context.RawOccurrences", "BindingLookup.Bindings", "the error returned by App.RunContext"])

P("C02", "Positional arguments receive exactly the values their declared count allows",
  "Positional values fill the declared arguments in declaration order, each taking as many as its count allows (exactly n, at most one, all remaining, until the next flag, all but flags, or as many as the value decides itself: a command and its arguments up to `;` or `+`, a name and its value in one token or in two) and never a token that looks like a flag unless the argument takes everything remaining, decides for itself, or a `--` was given. A command line is accepted only if no value is left over and every argument that needs exactly n values received n; with right-to-left binding the values are assigned to the last arguments that can be filled.",
  ["inputs", "configurations"],
  "Every list of positional arguments with any counts, any interleaving of flags and `--`, with and without right-to-left binding, and every token sequence.",
  "Count allocation couples every argument with its neighbours and with flags in between; the tests mostly use one argument at a time.",
  ["set.go", "arg.go"],
  [("argument counters", "arg.go ArgCount and the Take/Done methods"), ("argBinding", "set.go SetArg/Done/next"), ("right-to-left skip", "set.go RawParse")],
  [("takers", "remaining capacity of each positional", "set.go argBinding")],
  ["Context.RawOccurrences", "the error returned by App.RunContext"])

P("C03", "A rejected command line runs nothing",
  "When the tokens given to a command are rejected while parsing or while converting a value, none of that command's Before, Action or After handlers, none of its flags' or arguments' handlers and no sub-command run, and the error is returned to the caller. Handlers of enclosing commands that already ran are not undone, but none of their remaining handlers (Action or After) run either.",
  ["inputs", "fault_sequences"],
  "Every command tree, every level at which the command line is malformed (unknown flag, missing or extra value, unconvertible value, unknown command), and every set of handlers.",
  "Tests check the error text of individual parse failures, not that the complete set of handlers stays silent at every nesting level.",
  ["context.go", "command.go", "set.go"],
  [("parse before execute", "context.go Execute/executeCommand"), ("sub-command dispatch", "command.go subcommandCore")],
  (), ["events recorded by handlers", "error from App.RunContext"])

P("C04", "Each lifecycle handler runs exactly once, in the documented order",
  "Initialization (Uses) of the root runs before that of its flags, arguments and sub-commands and before any parsing; then, for each command that is selected, its Before handler, the Before handlers of its own flags and arguments, the Action of each of its flags and arguments that was set, the Action of the innermost command only, and After handlers (innermost command first), each exactly once. Handlers of flags that were not set, and of commands not selected, do not run their Action; a flag inherited from an enclosing command runs its Action in each command on whose command line it is given.",
  ["inputs", "configurations"],
  "Every command tree, placement of handlers on commands, flags and arguments, and every accepted command line.",
  "Order and multiplicity are global properties of the event sequence; tests count calls of one handler at a time.",
  ["action.go", "context.go", "command.go"],
  [("command and option flows", "action.go defaultCommand/defaultOption"), ("option triggers", "context.go triggerOptions, triggerOptionsHO")],
  (), ["events recorded by handlers"])

P("C05", "The first handler error stops the run and reaches the caller unchanged",
  "As soon as any Before, Action or After handler or hook of a command, flag or argument returns an error, no later handler of any command, flag or argument runs, and the run returns that very error value. If no handler fails the run succeeds; a handler error returned during initialization prevents parsing and every Before, Action and After.",
  ["fault_sequences", "configurations"],
  "Every handler position in every command tree as the failing one (exhaustive fault injection at each event of each run).",
  "Needs one injected fault per handler position per tree shape; tests inject a handful.",
  ["action.go", "context.go", "command.go"],
  [("cons/pipeline execution", "action.go ActionPipeline.Execute"), ("tunnel and bubble", "context.go")],
  (), ["events recorded by handlers", "identity of the error from App.RunContext"])

P("C06", "An action takes effect at its timing, or is refused when that has passed",
  "An action wrapped for a timing (initial, before, action, after, validation, implicit value, or a Setup) that is used at an earlier timing runs later, exactly once, when the run reaches that timing for the same target; at that timing it runs immediately. If the timing has already passed it does not run and the run fails with the too-late error, unless it is optional, in which case it is silently skipped.",
  ["programs", "configurations"],
  "Every nesting of timing wrappers, from every registration timing, on commands, flags and arguments.",
  "The decision table (registered at x desired at x target x optional) with nesting is only sampled by tests.",
  ["action.go", "context.go"],
  [("act", "context.go act / Context.At"), ("deferred pipelines", "action.go executeDeferredPipeline, actionPipelines.add"), ("withTimingWrapper", "action.go")],
  [("timing", "current stage of the context", "context.go Context.timing")],
  ["events recorded by handlers", "error from App.RunContext"])

P("C07", "Hooks wrap the elements they match, once each, in nesting order",
  "A Before hook or After hook registered on a command runs for that command, or for the descendant commands, flags and arguments that match the given pattern, exactly once per element each time that element reaches the timing (again for an element that changes its own name while it initializes), whatever the order of registration relative to other hooks. Hooks registered on the same command run in registration order; initial and After hooks of outer commands run before those of inner ones, and Before hooks of inner commands before those of outer ones.",
  ["configurations", "programs"],
  "Every placement of hooks with every pattern on any level of a command tree.",
  "Hook nesting involves every ancestor at every timing; tests register one hook.",
  ["action.go", "context.go", "filter.go"],
  [("hooksSupport", "action.go"), ("bubble/tunnel", "context.go executeBefore/executeAfter/initialize"), ("pattern filter", "filter.go ContextPath / PatternFilter")],
  (), ["events recorded by hooks"])

P("C08", "An option's value comes from its highest-precedence source",
  "A flag or argument given on the command line has the value given there; otherwise the value of the first of its environment variables that is set and not empty; otherwise the contents of its file if it exists; otherwise a value implied by another option that was used; otherwise its initial value. Whether it is reported as seen, as implicitly set and how many times it occurred agree with the source used.",
  ["configurations", "inputs"],
  "Every combination of present and absent sources (command line, several environment variables, file, implication) for options of every kind.",
  "Sources interact pairwise and with Action triggering; tests cover each source alone.",
  ["action.go", "context.go", "option.go", "flag.go"],
  [("Implicitly/FromEnv/FromFilePath", "action.go"), ("Implies", "action.go"), ("SetValue", "context.go")],
  [("seenImplied", "value was set implicitly", "option.go internalFlags")],
  ["Context.Value", "Context.Seen", "Context.Occurrences", "Context.ImplicitlySet", "process environment"])

P("C09", "Repeated uses of an option combine by the kind of its value",
  "The first use of a list, map, name/value or resettable option on the command line replaces its initial value and later uses add to it in order; with merging requested the initial value is kept and added to; single-valued options keep the last use. List and map text is split at unescaped separators unless splitting is disabled, and an escaped separator is kept literally.",
  ["inputs", "configurations"],
  "Every kind of option value, with and without merging and splitting, and every sequence of uses and texts.",
  "Splitting and reset rules depend on the whole history of uses; the tests use one or two values without escapes.",
  ["option.go", "flag.go", "arg.go", "value.go", "internal/support"],
  [("nextOccur/applyValueConventions", "flag.go, option.go"), ("setCore", "option.go/value.go"), ("SplitList/ParseMap", "internal/support")],
  (), ["values bound by the program"])

P("C10", "The named sub-command, and only it, is dispatched",
  "The first positional token given to a command with sub-commands selects the sub-command having that name or alias, which receives exactly the remaining tokens; only the commands on the selected path run. A name that matches no sub-command runs the most recently installed not-found handler that supplies one, and otherwise is reported as command-not-found; with no token the command's own Action runs (by default showing help).",
  ["inputs", "configurations"],
  "Every command tree with aliases, not-found handlers and every token sequence, including flags before and after the command name and `--`.",
  "Dispatch composes parsing at each level with handler fallback; tests try individual names.",
  ["command.go", "context.go", "option.go"],
  [("ExecuteSubcommand", "command.go"), ("HandleCommandNotFound", "command.go/context.go"), ("ensureSubcommands", "command.go")],
  (), ["events recorded by handlers", "Context.Path", "tokens visible in the sub-command"])

P("C11", "Names resolve in the nearest enclosing scope",
  "A flag of an enclosing command can be used on the command line of any of its sub-commands unless it is marked non-persistent, in which case it is unknown there; a sub-command's own flag takes precedence over an enclosing one with the same name. Looking up a flag, argument, value or metadata by name from a handler finds the element in the nearest enclosing command that has it.",
  ["configurations", "inputs"],
  "Every command tree with flags (persistent or not), names shared between levels, and every placement of uses on the command line.",
  "Shadowing across levels and placements is combinatorial; tests use one level and unique names.",
  ["set.go", "context.go", "lookup.go", "command.go"],
  [("NewBinding", "set.go"), ("parentLookup", "lookup.go/context.go"), ("LookupFlag/LookupArg/LookupData", "context.go")],
  (), ["Context.Value/String/...", "Context.LookupFlag", "Context.LookupData"])

P("C12", "Pipelines and middleware compose like nested function calls",
  "Executing a pipeline runs its actions in order however they are grouped into nested pipelines; a middleware action receives the rest of the pipeline, which then runs exactly as many times as, and when, the middleware invokes it. The first error ends the pipeline and is returned; appending and prepending preserve order.",
  ["programs"],
  "Every nesting of pipelines, plain actions, middleware (before/after/around, skipping, repeating, replacing errors) and conditional actions.",
  "Requires comparing arbitrary program trees with a reference semantics.",
  ["action.go"],
  [("ActionPipeline flatten/toCons", "action.go"), ("cons.Execute", "action.go"), ("middlewareFunc", "action.go"), ("IfMatch", "action.go")],
  (), ["events recorded by actions", "returned error"])

P("C13", "Options and commands added or changed during setup behave as if declared",
  "A flag, argument or sub-command that is added, renamed, aliased or removed while the application initializes takes part in parsing and in every later stage exactly as if it had been declared that way from the start: everything added is initialized exactly once, removed elements are neither recognised nor run, and other elements are not affected. Setup that leaves two flags or two arguments of one command with the same name, or a flag with a name that is not a valid identifier, is refused.",
  ["programs", "histories"],
  "Every sequence of additions, removals and renames performed by initializers of commands, flags and arguments, including by elements that were themselves added.",
  "The initialization work-list is mutated while it is walked; tests perform one mutation.",
  ["context.go", "command.go", "action.go", "option.go"],
  [("initializeFlagsArgs worklist", "context.go/command.go"), ("finalizeArgsAndFlags", "context.go"), ("AddFlag/RemoveFlag/AddArg/RemoveArg", "context.go")],
  (), ["events recorded by initializers", "bindings", "error from App.RunContext"])

P("C14", "Validators accept exactly the permitted uses",
  "For the options that a command declares: a required option that is not given on that command's command line, a value given there that is outside the option's enumeration, two options of a mutually exclusive group both used, or a path that must exist (given there or as the initial value) and does not makes the run fail before any Action of that command runs; otherwise validation never fails the run. Validators see the values as given on the command line, before any other Before handler of the option.",
  ["inputs", "configurations"],
  "Every set of options with any combination of validators and sources, and every command line.",
  "Combinations of validators with implicit sources and groups are not enumerated by tests.",
  ["action.go", "option.go", "context.go", "file.go"],
  [("checkForRequiredOption", "action.go"), ("Enum", "action.go"), ("Mutex", "action.go"), ("beforePipeline order", "action.go")],
  (), ["events recorded by handlers", "error from App.RunContext"])

P("C15", "The process exit status is the one the final error specifies",
  "Running the program exits with status 0 when the run succeeds, with the returned error's own exit code when it is an ExitCoder, with 2 for any command-line usage error, and with 1 for any other error (including a panic turned into an error by Recover, reported when the command ends); a non-zero status prints exactly the error's message to standard error, and a zero status prints no error message. Exit builds an error with the message and code that its arguments say. An explicitly requested exit from a handler ends the run with exactly that code and message.",
  ["fault_sequences", "inputs"],
  "Every kind of error from every handler position and every way to construct an exit error.",
  "Tests call the mapping on a few errors; the quantifier is over error kinds and their origin.",
  ["app.go", "error.go", "context.go"],
  [("App.Run/exit", "app.go"), ("Exit", "error.go"), ("doThenExit", "action.go"), ("ParseError.ExitCode", "error.go")],
  (), ["exit code handed to the exit handler", "stderr"])

P("C16", "An expression evaluates left to right, each operator filtering the next",
  "The tokens given to an expression argument are split, in order and losslessly, into uses of the declared operators (a dash followed by a name or alias), each followed by the operands its args take; an unknown operator, a token before the first operator, surplus operands and missing operands are reported as errors, and then nothing is evaluated. Evaluating an item runs the uses in order: each sees exactly the items its predecessor yields, an item that is not yielded goes no further, and an error that is not handled by an earlier operator ends the evaluation. Every use is bound to its own operand values, for every item, also after it has yielded (a command operand, up to `;` or `+`, is the same each time). Steps the program prepends or appends run before and after.",
  ["inputs", "programs"],
  "Every set of operators with operands of any count, every expression and every sequence of items, including operators that yield several or no items, change or swallow results, or fail.",
  "Expressions are programs; tests evaluate a few.",
  ["extensions/expr", "set.go", "arg.go"],
  [("parseExpressions", "extensions/expr/expr.go"), ("Expression.Evaluate / yielders", "extensions/expr/expr.go"), ("boundExpr.Evaluate", "extensions/expr/expr.go"), ("RawParse", "set.go")],
  (), ["events recorded by evaluators", "operator operand values", "the error returned by App.RunContext"])

P("C17", "Completion offers exactly the applicable names and values",
  "For a partial command line, completion offers what can take the place of the incomplete token: the names (one short, one long) of every visible flag of the command reached, its own or inherited, when the token begins with a dash; the names and aliases of its visible sub-commands when it is the sub-command's place; and the configured completion of the flag or argument that would be given the token as a value, also when the value is part of the token (--flag=val, -fval). Each is offered once and starts with the incomplete token; nothing hidden, shadowed or not applicable at that place is. A flag that is the only match is completed with what follows its name. Completing never runs any handler's Action, and required options that are missing don't matter; the response to the shell has the same items.",
  ["inputs", "configurations"],
  "Every command tree and every partial command line, including ones that lack arguments. Lines that don't parse before the incomplete token because of an unknown flag, and a dash where a flag's value is due, are unspecified.",
  "The completion context depends on the parse state reached by an arbitrary incomplete line.",
  ["completion.go", "completion_zsh.go", "command.go", "context.go"],
  [("defaultCommandCompletion / completeSubCommand", "command.go"), ("findSolitaryMatch", "command.go"), ("triggerRobustParsingAndCompletion", "command.go"), ("zshComplete", "completion_zsh.go")],
  (), ["Context.Complete results", "lines of the zsh response", "events recorded by handlers"])

P("C18", "Template generators write exactly the declared tree, and nothing in a dry run",
  "Generating creates exactly the files that the generator sequence declares and the directories that enclose them, each below the directory that encloses it in the sequence, with the content, the permissions and the formatting specified, where names and contents use the variables set so far. Each file is reported by its path as created, overwritten or identical, and is closed. The first failing step's error is returned and nothing further is created, changed or removed, unless an enclosing generator handles the error, which then continues in its own directory. A dry run leaves the file system as it is and reports what would be done.",
  ["programs", "fault_sequences", "histories"],
  "Every nesting of directory, file, data, mode and custom steps, over every initial file system, with a fault at any file system operation. What a dry run does below a path that is occupied by a file is unspecified.",
  "Needs file-system histories with fault injection; tests generate one tree.",
  ["extensions/template"],
  [("OutputContext", "extensions/template/context.go"), ("Dir", "extensions/template/dir.go"), ("File/Contents/Template/Touch/Mode/Gofmt", "extensions/template/file.go"), ("Root/Sequence/Vars", "extensions/template/template.go")],
  [("directory stack", "what encloses the next file", "extensions/template/context.go"), ("variables", "set so far", "extensions/template/context.go")],
  ["the contents of the file system after the run", "lines reported", "the error returned by App.RunContext"])

P("C19", "Quoting, joining and splitting are inverse",
  "Splitting the joined form of any list of strings gives back the list; the joined form, and a quoted string or name-value pair, is read by a POSIX shell as exactly the words given, with nothing left that a shell would treat specially. Splitting separates words at unquoted blanks, honours single quotes, double quotes, backslashes and escaped newlines, and reports which quoting is unterminated. Splitting a list or a map separates items at every separator that isn't escaped with a backslash, up to the number of items asked for, and gives items with their separators unescaped.",
  ["inputs"],
  "Every list of strings over any alphabet (without NUL, which no shell word has), every text given to split, every separator and limit.",
  "Round trip over all strings; tests use a table.",
  ["cli.go", "value.go", "file.go", "internal/support/support.go"],
  [("Quote/Join/Split/SplitList/SplitMap", "cli.go"), ("SplitList/ParseMap/FormatMap", "internal/support/support.go"), ("NameValue.String", "value.go"), ("FileSet.String", "file.go")],
  (), ["return values"])

P("C20", "A context path pattern matches exactly the paths it describes",
  "A context path is the names from the root command to an element. A pattern matches it exactly when its elements match the trailing elements of the path one for one, where an element is a name (a long flag may have one dash) or one of the wildcards for commands (`*`), flags (`-`), arguments (`<>`) and values (`<->`); the empty pattern matches everything. What is registered by Customize, HookBefore or HookAfter for a pattern is run for all and only the matching elements below the one where it was registered (Customize runs again, with the new name, for an element that changes its name in its initialization); an empty pattern is the element itself. An action with a filter runs only when all of the named modes hold for its element, or the pattern matches its path. Looking up a path finds the element that has it, and nothing when there is none; walking visits every command once, in order, without what is below those skipped, up to one that fails.",
  ["inputs", "configurations"],
  "Every pattern and every path over the element alphabet; every tree of commands, flags, arguments and values, with any registrations.",
  "Matching is defined over all pairs of patterns and paths, and applied over trees whose names change; tests list a few.",
  ["filter.go", "context.go", "action.go", "command.go"],
  [("ContextPath.Match/matchField", "context.go"), ("Customize/hookAt", "context.go"), ("FilterModes.Matches/decompose", "filter.go"), ("initializeChild/reinitialize", "command.go"), ("FindTarget/Walk", "context.go")],
  (), ["ContextPath.Match", "paths recorded by actions", "FindTarget and Walk results"])

P("C21", "Help describes the command asked for and lists exactly what is visible",
  "Help requested by the flag, by the help command or by running a group of commands describes exactly the command that was named (a name which is no command is reported), and no Action runs. It lists every visible sub-command and flag of that command in its category, and the visible flags of enclosing commands in the global section, each once with its help text; the usage line shows each visible flag and argument as required, optional, repeated or exclusive as it is declared, or the usage text given in its place, with a placeholder for each value: those named in the help text, in the order of their positions, or else one for its type. Flags and sub-commands come in the order of their declaration, or sorted by name where SortedFlags or SortedCommands is given, in whichever way the help is requested. Nothing hidden is ever shown. Where text is wrapped, no word is lost, joined to another or moved, and lines are broken only where the width requires it.",
  ["configurations", "inputs"],
  "Every command tree with any visibility settings, names, categories and value kinds, and every way to request help; every text, width and indent.",
  "Visibility is a product of options on elements and their ancestors, and what is described depends on where in the command line help is asked for.",
  ["usage.go", "templates.go", "command.go", "context.go", "internal/synopsis/synopsis.go"],
  [("visibility of commands, flags and args", "context.go applyImplicitVisibility"),
   ("which command is described", "usage.go findCommandToDisplayHelpFor"),
   ("usage line", "internal/synopsis/synopsis.go"), ("lists", "templates.go commandAdapter"),
   ("wrapped text", "usage.go Wrap")],
  (), ["text written to stderr, taken apart", "exit status", "which Actions ran"])

P("C22", "A provider lookup uses exactly the named provider and its arguments",
  "The provider that a value names, and its arguments, are those set by the value's text and by each use of its argument flag, in whatever order they are used. They are checked against the registry of that name, where it is used: an unknown provider, or an argument that the provider does not have, is reported and nothing runs, unless the registry allows what is unknown. What a registry makes of a name and options is what that provider's factory, called once, makes of the defaults replaced and added to by the options (or the value it was given), or the factory's error, or an error for an unknown name; it changes neither the defaults nor the options. Factory decodes the options into the function's parameter, or fails without calling it. The listing shows exactly the registry's providers and their defaults.",
  ["inputs", "histories"],
  "Every registry composition and sequence of name/argument settings.",
  "Name, defaults and arguments are set in different places and in any order.",
  ["extensions/provider/provider.go", "extensions/provider/context_services.go"],
  [("Registry.New", "extensions/provider/provider.go"), ("Value.Set, SetArgument, ArgumentFlag", "extensions/provider/provider.go"),
   ("validation", "extensions/provider/provider.go validateProviderExists"), ("Factory", "extensions/provider/provider.go")],
  (), ["factory calls and their options", "returned values and errors", "name and arguments of the value", "listing"])

P("C23", "Bound functions are called once with the values of what they are bound to",
  "An action or evaluator that is bound to a function asks each of its binders for its value, once and in order, at the time it runs, and then calls the function once with exactly those values; when a binder fails the function is not called and that error is returned. A binder takes its value from the option that it names (an operand of the expression before one of the command), else from the option that has the action, else from the argument or operand at its own position; in the Uses of anything it gives that option a value of its type, unless one was declared, and the option is then used as one of that type. Indirect, BindIndirect and BindContext call the function with the other value; Redirect sets the other option to exactly the value. When a function fails, that error is returned and nothing further is called.",
  ["programs", "configurations", "fault_sequences"],
  "Every place of an action, kind and number of binders, type of option, and failure.",
  "Each arity is its own code, and what a binder refers to depends on where the action is and on what has been initialized by then.",
  ["extensions/bind/binder.go", "extensions/bind/func.go", "action.go", "context.go"],
  [("Call, Action, Evaluator of 1 to 3 parameters", "extensions/bind/func.go"), ("Redirect, Indirect", "extensions/bind/func.go"),
   ("binders and implied types", "extensions/bind/binder.go"), ("Bind, BindIndirect, BindContext", "action.go bindThunk")],
  (), ["calls and their values, in order", "binders that were asked", "type and final value of each option", "error"])

P("C24", "A file set visits exactly the named files, each once",
  "The names in a file set are those it is given, in order: by its argument, by its field, or by the lines of the text it is set from (trimmed, without blank lines and comments). Enumerating it visits exactly these, in order, and, only when recursion is requested, also everything below each directory among them: each file once, after the directory that it is in and in order of name. Every visit gives a file of the set's file system (its own, or that of the app). A name that doesn't exist and a directory that can't be read are reported to the visitor, and enumeration continues; it stops at the visit that asks to, and returns that error. The set exists exactly when none of its names is missing, and MustExist rejects it otherwise.",
  ["inputs", "histories", "fault_sequences"],
  "Every directory tree and list of names from every source, every kind of file system, with faults at any operation and a stop at any visit.",
  "The tests use one tree of two files with no faults.",
  ["file.go", "option.go", "value.go"],
  [("FileSet.Do, All", "file.go"), ("FileSet.SetData", "file.go"), ("fsExtensionWrapper", "file.go"), ("MustExist", "option.go mustExistOption")],
  [("Files", "the names", "file.go FileSet"), ("Recursive", "whether directories are entered", "file.go FileSet")], ["visited names", "bytes read", "errors"])

P("C25", "Color is decided by its rules, and styling changes nothing but escape sequences",
  "Each output has color exactly when the last word about it says so: detection (only a terminal, without NO_COLOR and not with TERM=dumb; a Writer given as output speaks for itself), SetColor, AutodetectColor and SetMode in Uses, Before or an action, the flags of the color extension that its features add (the flag's last use wins, an invalid mode is an error), and the writer's own methods; buffers of a context follow its standard output. Without color what is written is exactly the text, byte for byte; with color it is the same text with the escape sequences of the styles and colors asked for, in place, reset afterwards. The template functions follow the same rules, leave empty text empty, reject names of no style or color, and emoji appear only with color.",
  ["programs", "configurations", "histories"],
  "Every sequence of style changes and writes, every combination of outputs, environment, features, modes and flags, every function of templates.",
  "What has color depends on the whole history of modes, flags and writes, on the environment and on what the output is; the tests check one writer or function at a time and never a terminal.",
  ["cli.go", "template.go", "extensions/color/color.go", "extensions/color/color_templates.go", "extensions/color/mode.go"],
  [("color writer", "cli.go NewWriter, SetColorCapable, ResetColorCapable, Styled"), ("modes and flags", "extensions/color/color.go SetMode, Options"), ("template functions", "extensions/color")],
  [("color of each output", "whether escape sequences are written", "cli.go")], ["bytes written to each output and buffer", "ColorCapable", "errors"])

P("C26", "Per-occurrence processing sees each use separately and in order",
  "Processing an option per occurrence runs the handler once for every use on the command line, in order, and within it the option's value and raw text are exactly those of that one use (with merging requested: the values accumulated up to that use); outside, they are those of all uses combined. An error stops the remaining occurrences.",
  ["inputs", "fault_sequences"],
  "Every sequence of uses for every kind of option value.",
  "Per-use values depend on the history of uses.",
  ["flag.go", "context.go", "action.go"],
  [("EachOccurrence", "action.go/flag.go wrapOccurrenceContext")],
  (), ["values observed by the handler"])

P("C27", "File operations act on the named file of their file system and nothing else",
  "Each operation on a File (open, create, write, append, stat, exists, walk, mkdir, rename, remove, chmod, chtimes ...) acts on the file of that name below the directory of its file system (or at its absolute name) just as the operating system would, and changes nothing else; one that fails changes nothing. An open file stops reading when its context is canceled. Where the file system stands for that of an app, the name - reads the app's standard input and writes to its standard output whatever these are, and a file system that only opens files describes them and refuses to change them.",
  ["histories", "configurations", "fault_sequences"],
  "Every sequence of operations on every small tree, in each kind of file system and spelling of the names.",
  "The tests check that each operation is delegated with its arguments, one at a time, with a stand-in; what a sequence of them does to files and to the standard streams is never run.",
  ["file.go", "app.go"],
  [("dirFS", "file.go dirFS.path and its operations"), ("defaultFS", "file.go NewSysFS, stdFile"), ("fsExtensionWrapper", "file.go wrapFS"), ("contextFile", "file.go")],
  [("std", "standard input and output", "file.go stdFile")], ["results of operations", "the tree afterwards", "text written to standard output"])

P("C28", "Text is converted exactly by the type of its option, and lookups return it",
  "The text given for an option becomes exactly the value which that text denotes in the option's type (numbers of each width and base within their range, durations, big numbers, Booleans, IP addresses, URLs, patterns, bytes), or is an error that says whether it is out of range or malformed and leaves the value as it was. The same text set through Set, SetData or a reader gives the same value. An optional value that is omitted becomes the one configured, or else the default of its type. Looking up the option by any of its names, as its own type or one that it converts to, gives back exactly that value.",
  ["inputs", "configurations"],
  "Every text in every type of option, and every way of naming it in a lookup.",
  "The tests convert one or two well-formed texts per type; ranges, bases, separators and malformed forms differ per type, and each lookup function is a separate copy.",
  ["value.go", "lookup.go", "set.go", "error.go", "flag.go", "arg.go"],
  [("setCore, setDirect, SetData", "value.go"), ("lookup functions", "lookup.go"), ("optional value", "flag.go optionalValue"), ("formatStrconvError", "error.go")],
  [("value", "destination of the option", "value.go setCore")], ["values after Set", "error kinds", "results of lookups"])

P("C29", "Elements are described by their definition, customization and set-up, in order",
  "The name, aliases, texts, metadata, environment variables, value type and completion of a flag, arg, command or value are those of its definition, completed by what Customize, prototypes, setters and set-up functions do, in order: a setter replaces; a prototype fills in only what is not set and adds to metadata, options, aliases and environment variables; set-up functions act only on the kind of element they are for, during initialization, and not when set-up is prevented; customizations apply again to an element that is renamed. The element can be used by exactly its resulting name and aliases; metadata is looked up in the element and then what encloses it. An accessory flag has the name (that of the prototype, derived, or given), category and reference to its element that were asked for.",
  ["configurations", "sequences of steps"],
  "Every definition, sequence of set-up steps from several places, kind of element, and accessory.",
  "The tests try each field of a prototype once on elements that define everything else, and one step at a time; what is lost, repeated or overwritten shows in combinations.",
  ["action.go", "context.go", "flag.go", "arg.go", "command.go", "option.go"],
  [("Prototype, setters, Customize, Accessory", "action.go"), ("SetName, AddAlias, LookupData, valueTarget", "context.go"), ("optionalSetup", "action.go"), ("renames", "command.go initializeFlagsArgs")],
  [("fields", "what describes the element", "fields of Flag, Arg, Command; setters of a value"), ("prevented", "whether set-up is prevented", "option.go internalFlagTaintSetup")], ["fields after initialization", "names that can be used", "metadata found"])

P("C30", "A transform sees each use as written; what it makes of it becomes the value",
  "A transform set for a flag or argument (the last one set; options such as FileReference come after) is given, for each use on the command line in order, the name as written and the values as written, and what it returns becomes the next value of the option: a text is set as one value whose separators have no meaning, and data are read by values that read data, appended by bytes, and otherwise set as a text. An error of the transform, such as a file that cannot be read, is the error of the run, before any handler. File references stand for exactly the contents of the files named, one after the other; an optional one only where the value starts with @. A transform of the value of name=value pairs is given only what follows the first unescaped =, or the value given apart, and leaves the name and any escapes as they are. What was written is still what occurrences and raw values show, and values that come from elsewhere than the command line are not transformed.",
  ["inputs", "configurations", "histories"],
  "Every text, kind of value, transform, and sequence of uses of a flag or argument, with merging, splitting and handling of each occurrence.",
  "The tests run one transform on one well-formed value; escapes, several uses, several values in one use, and kinds of values that read data are where text is lost or set twice.",
  ["action.go", "option.go", "set.go", "value.go", "flag.go", "arg.go", "file.go"],
  [("Transform, ValueTransform, file reference transforms", "action.go"), ("rawApplyToOption", "set.go"), ("SetData", "value.go, file.go"), ("fileReferenceOpt", "option.go")],
  [("transform", "the transform in effect", "flag.go, arg.go transformFunc")], ["values, raw values and occurrences", "error from App.RunContext"])

P("C31", "Context values, deadlines and signals reach all later handlers, and are released",
  "What a handler of a command puts into the context (a value, another context, a timeout, handling of a signal) is seen by every later handler of that command, of its flags and arguments, and of the commands below it that are run, and what is set in Uses is still there when the command runs; the latest of several values for a key is the one seen, and the rest of the context, which starts as the one given to the run, is unchanged. Commands outside are not affected by what a command sets while running. A timeout bounds the deadline of what it covers; when it expires, the caller cancels, or the handled signal arrives, what is derived from it is canceled, with that cause, and nothing else. When a run ends without an error, each timeout and signal handler has been released.",
  ["histories", "configurations"],
  "Every placement of steps that set values, replace the context, add timeouts or signal handlers, cancel, and raise the signal, in every stage of nested commands.",
  "The tests look up one value set in one place and wait for one timeout; shadowing, nesting, replacement, and release take several steps at several levels.",
  ["context.go", "action.go", "command.go", "app.go"],
  [("SetContext, SetContextValue, Value, Deadline, Done, Err", "context.go"), ("ContextValue, SetContext, Timeout, HandleSignal, cancelAfter", "action.go"), ("copy to children", "context.go copy, newChild"), ("from initialization to the run", "command.go copyContextToParent")],
  [("ref", "the context.Context in effect", "context.go Context.ref")], ["values, deadline and error of the context in each handler", "contexts after the run"])

P("C32", "Structured values set exactly the named fields, with the latest text of each",
  "A structured value (structure.Of) takes name-value pairs: each use of the option, or text given to Set, sets the fields that it names, each converted to the type of the field, and leaves every other field as it was; a field that is named again has only its latest value. Names are matched exactly or else without regard to case, commas and escapes separate pairs as for any map unless splitting is disabled (by the method or by the option), and a piece without a name continues the text before it. A text that its field does not accept is an error. Names of no field are ignored, unless ErrorUnused is given, when they are an error; options add to the conversions and do not remove them. The value is looked up as the struct itself, and the initial contents given by the program are neither lost nor shared. Decode converts any input (texts, numbers, bools) in the same way, or only by exact type when it is given options.",
  ["inputs", "histories"],
  "All sequences of uses, pairs and field types, before and after other values of the same field.",
  "The tests set each type of field once in a fresh struct.",
  ["extensions/structure/structure.go", "internal/support/support.go", "value.go"],
  [("Of, Set, Value, WithOptions, DisableSplitting, Decode, ErrorUnused", "extensions/structure/structure.go"), ("ParseMap, SplitList", "internal/support/support.go"), ("optionApplyValueConventions", "value.go")],
  [("V", "the struct", "extensions/structure/structure.go Value")], ["the fields of the struct", "errors", "the value found by lookup"])

P("C33", "A handler can tell where it is, and reach from there exactly what is around it",
  "In each stage that it runs in, a handler is told truthfully which element it runs for and where: the path of names from the root, the lineage of contexts (itself first, the root last), its parent and root, the nearest command, flag and arg, which kind of element and which stage it is, and the app. From there it reaches exactly the elements around it: the flags of the command (Flags are the persistent flags of the commands above followed by the local flags) and its args, in order; a flag, arg or sub-command by name (with or without dashes or angle brackets), alias, letter, index (negative from the end) or pointer; and ContextOf, Seen, Occurrences, Value and Values answer for the same element as the lookup does. Commands and the app by themselves find only what they declare. Asking has no effect: the same question has the same answer.",
  ["inputs", "configurations", "histories"],
  "Every tree of commands, flags, args and aliases, every element and stage, and every way of naming what is sought.",
  "The tests ask single questions at one or two places of a fixed app.",
  ["context.go", "lookup.go", "command.go", "flag.go", "arg.go", "app.go"],
  [("Path, Lineage, Parent, Root, Command, Flag, Arg, Is..., Timing, Flags, LocalFlags, PersistentFlags, LocalArgs, LookupFlag, LookupArg, LookupCommand, ContextOf, Seen, Values, Args", "context.go"),
   ("Command, Flag, Arg, Names", "command.go"), ("ShortName, LongName, Names", "flag.go")],
  [("context chain", "the parent of each context", "context.go Context.parent, newChild")], ["answers of the methods, by element"])

P("C34", "A combination of features, options or filters is its parts; its text reads back",
  "A value that combines features does what its parts do: FeatureMap takes from the map the feature of most bits that the value contains (of several, the one with the highest bits), runs it and leaves out its bits, until it contains none, so that each bit is acted on once, in the same way on every run. The text of a value names exactly its parts: that of a set of options or filters is the list of the names (ANYTHING for the three kinds of target), and that of a timing or color mode its one name. Reading the text back, in any order and with any spaces, gives the value back: options are added to those that were there, names which are unknown are ignored (for a color mode an error, which changes nothing), and a color mode is read in any case.",
  ["inputs", "configurations"],
  "Every set of masks in a map and every value; every combination of options and filters, and every text.",
  "The tests name single options and filters, and maps where no two features overlap.",
  ["filter.go", "option.go", "action.go", "extensions/color/mode.go"],
  [("decompose, items", "filter.go"), ("FilterModes String, MarshalText, UnmarshalText", "filter.go"), ("FeatureMap.Pipeline, Option String, UnmarshalText", "option.go"), ("Timing MarshalText, UnmarshalText", "action.go"), ("Mode Set, String", "extensions/color/mode.go")],
  [("left", "the bits not yet acted on", "filter.go bitSet.items options")], ["actions run, in order", "texts", "values read"])
P("C35", "Numbers written in another base or with a unit are read exactly, or rejected",
  "A Hex or Octal value has the number that its digits stand for in its base, with or without the prefix (0x, 0o) and a sign, and what it is written as reads back as the same number; a text with any other character, without digits, or of a number beyond 64 bits is an error. A ByteLength is the number given times its unit (powers of 1000, or of 1024 with i), exactly (up to 64 bits), where the part of a fraction less than one byte is left out; without the B it is a plain number. Text before, after or between, several points, an unknown unit, or a fraction of bytes is an error. A JSON value is read from data, and can be set from a text only where its own type can be.",
  ["inputs"],
  "Every text.",
  "The tests read one text per unit and one per base.",
  ["value/value.go"],
  [("ParseByteLength", "value/value.go"), ("Hex, Octal UnmarshalText, String", "value/value.go"), ("jsonValue Set, SetData", "value/value.go")],
  [("num", "the number read so far", "value/value.go")], ["the value in the action", "its text", "the error returned by App.RunContext"])

with open(OUT, "w") as f:
    for r in rows:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(rows), "properties")
