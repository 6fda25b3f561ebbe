# The table of properties.  A property without tech/note is listed with na=...

prop("C01", "Backtracking leaves no trace of a failed attempt",
     "When an alternative, a repetition round, a sequence or a look-around attempt fails, parsing continues exactly from the source position, AST stack and user tag at which that attempt began. "
     "A leaf parser that does not match returns the position, stack and tag it was given.",
     ["inputs", "programs"], "every grammar, every source, every starting position and stack, every combination of results of the sub-parsers",
     "The tests run a few fixed grammars; what the sub-parsers did before they failed (how far they moved, what they pushed, how they tagged) is never varied.",
     [B + "base.go", B + "parsers.go", S + "parsers.go", O + "parsers.go"],
     [("saved context per round and per alternative", "base/base.go BaseParser"), ("leaf parsers return the unmodified context", "string/parsers.go, object/parsers.go")],
     AI + "against a ghost specification machine",
     "Every combinator is analysed with any number of unknown sub-parsers that may match, fail or report an error in any order; the context given to the next attempt and the context of the result must be the ones the specification machine predicts, on every path.",
     observe=["context passed to the next sub-parser", "context returned"])

prop("C02", "Entries already on the AST stack stay intact",
     "The entries that are on the AST stack when a parser is called are all still there, in order and unmodified, when it returns, whether it matched or not, and entries visible to another branch of the same parse are never overwritten in place. "
     "The only exception is the pattern matcher over previous results, which replaces the entries it was asked to inspect by its result.",
     ["inputs", "programs"], "every parser, every initial stack (length, spare capacity and content), every source",
     "Overwriting needs a stack with spare capacity shared by two attempts; the tests never start with a populated, shared stack.",
     [B + "base.go", B + "parsers.go", B + "match.go", S + "parsers.go", O + "parsers.go"],
     [("append after a full-slice or fresh stack", "base/base.go BaseParser"), ("append only", "leaf parsers")],
     AI + "with slice aliasing and a protected prefix of every stack",
     "Writes through slices are tracked per backing array; any store below the entry length of the stack, and any result whose first entries differ from those at entry, is reported.",
     observe=["AST stack returned", "backing array of the AST stack passed in"])

prop("C03", "Errors end the parse and reach the caller",
     "When a sub-parser, callback or transformer reports an error, as an error value or as an error status, nothing else is tried and the caller receives that error together with the error status. "
     "Parsers report errors only for such a cause; a failure to match is never an error.",
     ["inputs", "programs", "fault_sequences"], "every place at which a part of a grammar can fail, in every combinator, with both ways of reporting",
     "The tests hardly exercise errors inside alternatives, repetitions or look-arounds, and an error swallowed by backtracking still gives a plausible result.",
     [B + "base.go", B + "parsers.go", B + "match.go", B + "production.go"],
     [("error checks after each call", "base/base.go BaseParser, LightBaseParser"), ("error return of transformers", "base/base.go BaseParser")],
     AI + "with error results injected at every unknown call",
     "At every call of an unknown part the analysis also follows the four error outcomes (error status with and without a value, error value with another status) and demands an immediate return of that error.",
     observe=["error and status returned"])

prop("C04", "Ordered choice takes the first alternative that matches",
     "A choice tries its alternatives in order, each from the same starting context, and the result is that of the first alternative that matches; later alternatives are not run. "
     "It fails to match exactly when every alternative fails.",
     ["inputs", "programs"], "any number of alternatives with any results, on any source",
     "The tests use choices of a few character classes; order, skipping and the last alternative matter only for overlapping alternatives.",
     [B + "base.go", B + "parsers.go"], [("exists loop", "base/base.go BaseParser"), ("First", "base/parsers.go")],
     AI + "against a ghost specification machine",
     "The choice is analysed with any number of unknown alternatives; every call is compared with the next alternative the specification expects, and the result with the outcome of the calls.")

prop("C05", "A sequence runs its parts in order, each from the end of the one before",
     "A sequence runs every part exactly once, in order, each starting from the context the previous one returned, and matches exactly when all of them match. "
     "Its result is the context of the last part, with the results of all parts appended to the AST stack in order.",
     ["inputs", "programs"], "any number of parts with any results, on any source",
     "The tests run fixed short sequences over fixed strings.",
     [B + "base.go", B + "parsers.go"], [("children loop", "base/base.go BaseParser"), ("FlatGroup, Group", "base/parsers.go")],
     AI + "against a ghost specification machine",
     "Sequences are analysed with any number of unknown parts; order, contexts and the result are compared with the specification on every path.")

prop("C06", "Repetition is greedy and respects its bounds",
     "A repetition keeps running rounds until a round fails or the maximum is reached, never more than the maximum, and matches exactly when the number of complete rounds is at least the minimum. "
     "The reported quantity is that number of complete rounds, and an unlimited maximum never stops the repetition early.",
     ["inputs", "programs"], "every minimum and maximum, any number of parts per round, any results, on any source",
     "The tests use four or five fixed bounds with single-character rounds.",
     [B + "base.go", B + "parsers.go", B + "const.go"], [("round loop", "base/base.go BaseParser"), ("quantifiers", "base/const.go"), ("Repeat and its abbreviations", "base/parsers.go")],
     AI + "against a ghost specification machine",
     "Minimum and maximum are symbolic; the ghost machine counts complete rounds and judges every further round, every end and the reported quantity. Termination for rounds that match without consuming anything is not covered.")

prop("C07", "Look-around never consumes and reports the right truth value",
     "A look-ahead matches exactly when its content matches at the current position, a negative one exactly when it does not, and a look-behind tries exactly the permitted distances within the source, nearest first. "
     "When a look-around matches, position, AST stack and user tag are the same as before.",
     ["inputs", "programs"], "any content, any distances, any source and position",
     "The tests cover a handful of positions and distances; boundaries of the distance range and of the source are not enumerated.",
     [B + "parsers.go", B + "base.go"], [("rewind", "base/base.go BaseParser"), ("distance loop", "base/parsers.go lookBehindBase")],
     AI + "against a ghost specification machine",
     "Look-arounds are analysed with unknown content and symbolic distances (minimum not negative).")

prop("C08", "Transformers see and replace exactly the results of their parser",
     "A transformation runs only after its parser has matched, receives exactly the ASTs that parser added, passes the output of each transformer to the next in order, and replaces exactly those ASTs by the final output. "
     "Grouping turns them into one entry that holds them as a list.",
     ["inputs", "programs"], "any sub-parser, any number of transformers returning any slices, any initial stack",
     "The tests apply one or two transformers to freshly created stacks.",
     [B + "base.go", B + "parsers.go", B + "transformers.go"], [("transformer loop", "base/base.go BaseParser"), ("GroupingTransform", "base/transformers.go")],
     AI + "against a ghost specification machine",
     "The transformer chain is analysed with any number of unknown transformers; inputs, order, context and the final splice are compared with the specification.")

prop("C09", "Text tokens describe exactly the text they matched",
     "A text parser that matches at a position advances by exactly the bytes it matched and pushes exactly one token whose value is that text (an invalid byte standing for the replacement character), whose type is string and whose position and length are the start and the number of bytes. "
     "Zero-width text parsers push nothing and do not move.",
     ["inputs"], "every text parser, every source string including invalid UTF-8, every position",
     "The tests use ASCII and a few multi-byte strings at few positions.",
     [S + "parsers.go", S + "new.go"], [("token construction", "string/parsers.go")],
     AI + "with symbolic strings and runes",
     "Every constructor is analysed on a symbolic source and position; value, type, position, length and advance are compared with the specification on every matching path.")

prop("C10", "Object tokens describe exactly the elements they matched",
     "An object parser that matches at a position advances by exactly the elements it matched and pushes exactly one token whose value is the matched element (for a sequence, the matched part of the source) and whose position and length are the start and the number of elements. "
     "Zero-width object parsers push nothing and do not move.",
     ["inputs"], "every object parser, every source slice of any implementation, every position",
     "The tests use one slice type and few positions.",
     [O + "parsers.go", O + "new.go"], [("token construction", "object/parsers.go")],
     AI + "with a symbolic slice implementation",
     "As for text tokens; the source slice is an unknown implementation of the slice interface.")

prop("C11", "Predefined character classes match exactly their documented characters",
     "Each predefined character class, from digits, letters and alphanumerics over white space and line breaks to their negations and the any-character class, matches a character at the current position exactly when that character belongs to its documented set, and fails at the end of the source.",
     ["inputs"], "every character code, every source and position",
     "The tests sample a few characters per class; set boundaries are what goes wrong.",
     [S + "parsers.go", S + "const.go", X + "extra.go"], [("range tables and predicates", "string/parsers.go"), ("line break classes", "string/parsers.go")],
     AI + "with exact character-set decision",
     "For every path of each class parser the set of characters that leads there is computed as a set of code points and compared with the documented set.")

prop("C12", "Caller-supplied sets, ranges and sequences are matched exactly",
     "A parser built from a caller's list of characters, ranges, strings, predicates or objects matches exactly when the source at the current position belongs to the list (or equals the sequence, or satisfies the predicate), trying list entries in order. "
     "The negated forms match exactly one item when none of the entries applies.",
     ["inputs", "configurations"], "every list of entries of any length, every source and position",
     "The tests give each constructor one or two fixed lists.",
     [S + "parsers.go", O + "parsers.go"], [("membership loops", "string/parsers.go, object/parsers.go")],
     AI + "with a watched-element argument for loops over arbitrary lists",
     "Lists are symbolic and of any length; matching is compared with membership of an arbitrary watched entry, both directions.")

prop("C13", "No parser runs out of the bounds of its source",
     "No parser of the library panics on any source, including empty and invalid UTF-8 text, at any position from the start to the end of the source, with any AST stack: every index and every slice stays within bounds.",
     ["inputs"], "every source, every position, every initial stack",
     "The tests rarely parse at the end of a source and never inside a multi-byte character.",
     [S + "parsers.go", O + "parsers.go", B + "base.go", B + "parsers.go", B + "match.go"], [("end of source tests", "leaf parsers")],
     AI + "with bounds obligations at every index and slice expression",
     "Every index, slice, conversion and type assertion on every path of every analysed function is an obligation that must be proved from the path facts.")

prop("C14", "Word boundaries are the places where word characters begin or end",
     "A word-boundary assertion matches exactly where exactly one of the characters before and after the current position is a word character, the start and the end of the text counting as no word character. "
     "It never moves and pushes nothing; this holds for multi-byte characters on either side.",
     ["inputs"], "every source and position, for the ASCII and the Unicode variant",
     "The tests look at a few ASCII positions.",
     [S + "parsers.go", X + "extra.go"], [("look at both sides", "string/parsers.go WordBoundary, extra/extra.go UnicodeWordBoundary")],
     AI + "with exact character-set decision on both sides",
     "The decision at every path is compared with the exact word-character sets of both neighbouring characters.")

TODO = "not claimed yet: its analysis is being built"

prop("C15", "A constructed parser keeps no state between uses",
     "Running a parser or transformer changes nothing that outlives the run apart from its result: no package variable, captured variable or argument of its constructor is modified, so one parser can be used repeatedly and by several goroutines at once with the same results.",
     ["schedules", "histories"], "every sequence and interleaving of uses of one parser value",
     "The tests use each parser once, in one goroutine.",
     [B + "base.go", B + "parsers.go", B + "transformers.go", S + "parsers.go", O + "parsers.go"], [("closures capture only immutable values", "all constructors"), ("synchronised lazy construction", "base/parsers.go Indirect")],
     AI + "with an effect analysis of pre-existing objects",
     "Every store executed while parsing must go to memory allocated by that run (or, for deferred construction, inside the one-time initialisation).")
prop("C16", "Transformers never modify the ASTs they are given",
     "A transformer leaves the list of ASTs it receives, and everything reachable in the same backing storage, unmodified; changes appear only in the list it returns.",
     ["inputs"], "every transformer, any input list with any spare capacity", "The tests compare only the returned list.",
     [B + "transformers.go", S + "transformers.go", X + "transformers.go", B + "production.go"], [("copy before write", "base/transformers.go")],
     AI + "with aliasing of the input list, its spare capacity protected",
     "Every transformer is analysed on an arbitrary list with arbitrary spare capacity; each store is tracked per backing array and the input must be unchanged, in length, content and capacity, on every path.")
prop("C17", "List transformers produce their documented lists",
     "Each list transformer (erase, group, push, prepend, pop, exchange, roll, rename, set value, set operation code, to-slice) returns exactly the documented rearrangement of its input for lists of every length, including empty and single-element lists, and changes no other field of any entry.",
     ["inputs"], "every input list of every length", "The tests use lists of two or three entries.",
     [B + "transformers.go"], [("list construction", "base/transformers.go")],
     AI + "with sequence comprehensions as the domain of lists",
     "The list returned on every path is compared, field by field, with the documented rearrangement of a list of arbitrary length.")
prop("C18", "Text-to-value transformers report malformed text as an error",
     "A transformer that turns text into a number, character, string or date converts exactly the text of its input, and reports text it cannot convert as an error rather than with a wrong value or a panic.",
     ["inputs"], "every list of string tokens with any text", "The tests convert well-formed texts.",
     [S + "transformers.go", X + "transformers.go"], [("conversion error checks", "string/transformers.go, extra/transformers.go")],
     AI + "with uninterpreted library conversions",
     "For lists of arbitrary length with arbitrary texts the value must be the conversion, by the documented library function and arguments, of the concatenated text, and every failure of that conversion must be an error.")
prop("C19", "The type tag of an AST always agrees with its value",
     "Every AST produced by a parser or transformer of the library carries a type tag that names the dynamic type of its value.",
     ["inputs", "programs"], "every AST created by any parser or transformer on any input", "The tests seldom look at the type tag.",
     [B + "transformers.go", S + "parsers.go", S + "transformers.go", X + "transformers.go", O + "parsers.go"], [("AST literals", "all constructors")],
     AI + "with a type-tag invariant on the entries",
     "Every entry any analysed parser or transformer creates has its tag compared with the dynamic type of its value on every path; entries of the input are assumed to be well tagged.")
prop("C20", "Every parser labels its results with its own class name",
     "A leaf parser, and each grammar of the extra library, labels its token with its own documented class name, and different parsers have different class names.",
     ["inputs", "programs"], "every parser, every matching source", "The tests check a few class names.",
     [B + "classes", S + "classes", O + "classes", X + "classes"], [("class name constants", "classes packages")],
     AI + "and comparison of the constants",
     "The class name of every analysed parser's result is compared with its own constant, and the constants of the library are pairwise distinct.")
prop("C21", "Production rules rewrite the leftmost applicable place by precedence",
     "A production-rule transformer repeatedly applies the first matching rule of the highest applicable precedence at the first matching position in that precedence's direction, replaces exactly the matched entries by the rule's result, and stops successfully only when the given acceptance check matches. "
     "If no rule applies and the check does not match it reports an error.",
     ["inputs", "programs"], "any precedences, rules, directions and AST lists", "The tests run two fixed operator tables.",
     [B + "production.go"], [("rewrite loop", "base/production.go ProductionRule")], 
     AI + "against a ghost specification machine of the rewriting",
     "The rewriter runs on unknown precedences (each with at least one rule), directions and lists; every call of an unknown rule or of the acceptance check must be the next one the specification expects, on the list and position it expects, and the list returned must be the rewritten one; a match is taken not to end before its start.")
prop("C22", "The pattern matcher applies the first case that accepts",
     "The pattern matcher over previous results tries its cases in order, applies the transformers of the first accepting case to exactly the entries it may inspect (all of them if there are fewer), and replaces those by the output; if no case accepts it fails to match and changes nothing. "
     "A predefined predicate accepts exactly when the newest entry has the predicate's type and one of its values.",
     ["inputs", "programs"], "any number of cases, any stack length, any count", "The tests use stacks that are long enough.",
     [B + "match.go"], [("case loop", "base/match.go Match")],
     AI + "with a ghost case counter",
     "The matcher is analysed with any number of cases, any stack and any count; the predicates are compared with their documented condition.")
prop("C23", "Tree traversal visits every node in order exactly once",
     "Traversal visits every node depth first, calling the outbound handler before and the return handler after the children in order, rebuilds the tree from the returned nodes without modifying the original, and stops at the first error or throw after notifying each enclosing node. "
     "Lazy nodes are not entered, and in last-value mode the jump instructions of the return handler decide which child runs next.",
     ["inputs", "programs"], "every tree and every pair of handlers", "The tests traverse a few expression trees.",
     [B + "ast.go"], [("recursive traversal", "base/ast.go Traverse")], 
     AI + "against a ghost specification machine of the traversal, by induction over the tree",
     "A node of any kind, unknown handlers in every mode and children whose traversal succeeds, throws or fails; every handler call and every visit of a child must be the next one expected, on the expected node, and stores into lists of the original tree are reported. Trees are taken to be well tagged, jumps not to point before the first child, and opcodes and modes to be the declared ones.")
prop("C24", "AST values are only accessed through their real type",
     "The library never reinterprets the memory of an AST value without a type check.",
     ["programs"], "every access to an AST value", "Reinterpretation of a matching value works in every test.",
     [B + "ast.go", B + "unsafe.go"], [("type assertions", "base/ast.go")], "static analysis: interprocedural dataflow of unsafe pointers over the typed SSA form of every library function",
     "Every conversion from an unsafe pointer to a typed one in the library packages is traced back through conversions, arithmetic, variables, fields, parameters and results; memory of an interface, a node or something made of nodes must not be used as another type without a type assertion before it.")
prop("C25", "An uninitialised box fails loudly on every access",
     "Reading the placeholder box, by a getter or by indexing, before a value was set panics instead of returning a value; setting a value through it makes that value readable, so no write is silently dropped.",
     ["inputs"], "every accessor with any argument", "The tests never use the placeholder.",
     [B + "box.go"], [("panicking accessors", "base/box.go")], AI + "of every accessor of the placeholder",
     "Every method of the placeholder box is analysed before a value was set: a getter must panic on every path, a setter must make the value readable through the matching getter.")
prop("C26", "Box accessors read and write the cell they stand for",
     "Each typed getter of a box returns, and each typed setter changes, exactly the cell the box addresses (the value itself, the slice element or the map entry), in the representation named by the accessor. Indexing a box by position or key yields the box of that element of the value, or of the entry under that key of the map the box belongs to.",
     ["inputs"], "every accessor of every implementation", "The tests do not cover the boxes.",
     [B + "box.go"], [("reflection accessors", "base/box.go")], AI + "with reflection modelled as loads and stores of the addressed cell",
     "Getters and setters of every box implementation are analysed on a symbolic cell, and so are the boxes that Index, MapIndex and ComplexMapIndex hand out; Index of map boxes, SetAny(nil) on map boxes and GetInt on interface-typed maps are not covered.")
prop("C27", "AST lists implement the slice interface faithfully",
     "An AST list used as a parser source behaves like a slice: length, element access, update, re-slicing, copying and creation do what their names say, a copy shares no storage, and element equality compares class, type and value recursively and symmetrically.",
     ["inputs"], "every list, index and pair of elements", "The tests use it through two grammars only.",
     [B + "ast.go"], [("slice interface methods", "base/ast.go AstSlice")], AI + "with slice aliasing, and induction over nested comparisons",
     "Each method is analysed on an arbitrary list and indices within bounds; comparisons of children are taken as what this check shows for their parents; values other than lists and cons cells are compared by deep equality.")
prop("C28", "Debug tracing does not change parsing",
     "A traced parser returns exactly what the untraced one returns, its tracer is told once before and once after every run with the context at that moment, panics are reported and passed on, and tracing ends with the traced constructor.",
     ["inputs", "programs"], "every parser and every tracer", "The tests do not trace.",
     [B + "tracer.go", B + "base.go"], [("tracing wrapper", "base/tracer.go")], AI + "of a program that constructs parsers inside, outside and after nested traces, with an effect log of tracer calls",
     "Light parsers and combinators constructed under one, two and no traces are run and compared with their untraced twins: result, error, panic, events, scope, tracking number and context, for arbitrary implementations, tracers, scopes and inputs; tracers that modify the context they are shown are outside the property.")
prop("C29", "Number grammars accept exactly the documented number syntax",
     "The number grammars of the extra library accept exactly the longest prefix that is of their documented syntax (digits of the base; for decimal numbers an optional single sign, no leading zeros, fraction and exponent; underscores after the first digit are ignored) and yield one token with that text without the underscores.",
     ["inputs"], "every source text", "The tests try a few dozen numbers.",
     [X + "extra.go"], [("grammar definitions", "extra/extra.go")], AI + "that extracts the grammar a constructor builds, and exact comparison of its automaton with that of the documented syntax",
     "Each constructor is evaluated to the grammar it builds (with the combinators' meaning given by C04-C12) and compared with the documented syntax, as a longest-prefix language with its output, on all texts; the transformers must make one labelled token of any tokens.")
prop("C30", "Identifier, date and time grammars accept exactly the documented syntax",
     "The identifier, date, time and date-time grammars of the extra library accept exactly the longest prefix that is of their documented syntax and yield one token with that text, times completed to nine fractional digits of the second and the zone Z written as +00:00.",
     ["inputs"], "every source text", "The tests try a few dozen texts.",
     [X + "extra.go"], [("grammar definitions", "extra/extra.go")], AI + "that extracts the grammar a constructor builds, and exact comparison of its automaton with that of the documented syntax",
     "As for the number grammars; the Unicode identifier sets are compared as sets of code points with those of the Unicode tables of the Go installation.")
prop("C31", "Reported line and column match the source position",
     "The line reported for a position is one plus the number of line breaks before it and the column is one plus the number of bytes since the last of them, with CR, LF and CR LF each counted as one break.",
     ["inputs"], "every source text and every position in it", "The tests try a few error positions.",
     [B + "util.go"], [("scan of the text before the position", "base/util.go")], AI + "of the scan, fed in step to a transducer that counts line breaks",
     "Every character the code reads is fed in order to the specification, which follows line, line start and column; loop invariants relate the code's counters to it and the result must agree for every position. Positions outside the source and a negative tab size are not covered; the excerpt is C37.")
prop("C32", "Enumeration values have distinct documented names",
     "Each AST type and each match status is printed by its own name and every other value as unknown.",
     ["inputs"], "every value", "The tests print none.",
     [B + "ast.go", B + "types.go"], [("name switches", "base/ast.go, base/types.go")], AI + "of the name functions on an arbitrary value",
     "The name function is analysed on an arbitrary integer: each path that returns a constant's name must imply that constant and every constant must reach its own name; names are pairwise distinct.")
prop("C33", "Deferred parsers are built once, on first use, and behave as themselves",
     "A deferred parser calls its constructor function not before its first use and at most once however often and by however many goroutines it is used, and every use gives the same match status, error, position, AST stack and user tag as the constructed parser for the given context.",
     ["schedules", "histories"], "every sequence and interleaving of uses", "The tests use deferred parsers in one goroutine.",
     [B + "parsers.go"], [("one-time initialisation", "base/parsers.go Indirect")],
     AI + "with a ghost construction counter",
     "First and later uses are analysed separately; a write to the cached parser must happen inside the one-time initialisation only.")
prop("C34", "New contexts start at the beginning of the given source",
     "A new parser context holds the given source, starts at position zero with an empty AST stack and carries the given user tag, if any.",
     ["inputs"], "every source and tag", "The tests look only at parse results.",
     [S + "new.go", O + "new.go"], [("context constructors", "string/new.go, object/new.go")], AI + "of the context constructors",
     "Every field of the context returned by each constructor is compared with the documented one on every path.")

prop("C35", "Elementary assertions decide exactly what their names say",
     "The start assertion matches at position zero only; the always-matching parser inserts the given ASTs, stamped with the current position and length zero; the always-failing parser never matches; the error parser always reports an error with the given message; none of them moves the position. A conditional parser is exactly the parser it chose.",
     ["inputs"], "every context, every AST list and message given at construction", "The tests use the elementary parsers at a few positions.",
     [B + "parsers.go"], [("elementary parsers", "base/parsers.go Start, Zero, Unmatched, Error, If")],
     AI + "of each elementary parser on an arbitrary context",
     "Status, error, position, stack and tag of every outcome are compared with the documented result.")
prop("C36", "The library itself never loops for ever",
     "Every constructor, parser, transformer, traversal and other function of the library returns after finitely many steps for every input and definition, as long as the functions the caller supplies return. Excepted is what the caller asks for: an unlimited repetition of a part that goes on matching without consuming, production rules that go on applying, handlers of a traversal that go on jumping, parsers that call themselves without consuming.",
     ["inputs", "programs"], "every source, every definition, every result of the caller's functions", "A test that hangs on one input says nothing about the others.",
     [B + "base.go", B + "parsers.go", B + "production.go", B + "ast.go", B + "util.go", O + "parsers.go", S + "parsers.go", X + "extra.go"],
     [("round loop", "base/base.go BaseParser"), ("distance loop", "base/parsers.go LookBehind"), ("rule loop", "base/production.go"), ("child loops", "base/ast.go Traverse"), ("scans", "base/util.go, object/parsers.go"), ("grammar repetitions", "extra/extra.go")],
     AI + "with lexicographic ranking functions for the loops, and recurrent states for the refutation",
     "For every loop met in any analysis the iterations between its abstract states are ranked: numbers that only grow or shrink towards a bound known before the loop. Iterations that hand a result of a caller's function to the next one are not counted. A loop without ranking is a violation when an exact path leads back to a state it was in before (possibly with greater numbers nothing depends on), and undecided otherwise. The grammars of the extra package must not repeat a part that consumes nothing. Loops whose iterations are all concrete are followed to their end. Exact recursion with the same arguments is reported; other deep recursion is undecided.")
prop("C37", "The error excerpt shows the right lines and its carets stand below the column",
     "For a position and a tab size, the excerpt consists of the line before the one with the position, if there is one, that line itself up to its end, and a guide. Each line has a margin of five characters, which is marked with > for the line of the position; every tab is shown as so many spaces as the tab size says; the line before keeps its line break (CR, LF or CR LF), and the other ends with LF, or with CR if CR ended the line before. The guide consists of the margin, as many spaces as the shown part of the line before the position is wide, and four carets.",
     ["inputs"], "every source text, every position in it and every tab size", "The tests look at no excerpt.",
     [B + "util.go"], [("excerpt of the source", "base/util.go")], AI + "of the whole function, fed in step to a transducer that counts breaks, tabs and widths; comparison of the text built with the text required",
     "The transducer of C31 follows in addition the start of the line before, the kind of break between the lines, the tabs and the width of the line, and the end of the line of the position. The text the code builds is taken apart into constants, parts of the source with or without tabs replaced, and numbers of spaces; it must be the sequence required, for every source. Texts built in other ways are undecided. Width is counted in bytes.")
prop("C40", "Parsing terminates for every caller-defined grammar and source",
     "Every parse ends after finitely many steps for every finite source and every grammar without left recursion.",
     ["inputs", "programs"], "every grammar and source", "A test that does not end is no test.",
     [B + "base.go"], [("round loop", "base/base.go BaseParser")],
     na="the property is false by design for unlimited repetition of a part that matches without consuming (the library offers no progress check and documents none), and for the other grammars termination depends on the run-time behaviour of caller-supplied parsers, which no static argument about this repository bounds; the library's own loops are C36")
prop("C41", "The example CSV parser and formula evaluator compute the right values",
     "The bundled examples parse every well-formed CSV document to its cells and evaluate every well-formed formula to its arithmetic value.",
     ["inputs"], "every document and formula", "The tests try a few.",
     ["_examples/csv", "_examples/formula"], [("example grammars", "_examples")],
     na="numerical results and round trips over run-time values are outside what a static argument can decide; the grammar machinery the examples rely on is covered by C01-C22")
prop("C42", "Parsing is linear in the length of the source for predictive grammars",
     "A grammar whose alternatives differ in their first character is parsed in time linear in the source.",
     ["inputs"], "every source", "Tests do not measure time.",
     [B + "base.go"], [("stack sharing between attempts", "base/base.go BaseParser")],
     na="running time is a quantitative run-time property (it depends on append growth and caller code); static analysis of this code cannot bound it")
