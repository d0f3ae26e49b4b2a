package main

// mustSee lists the rules that have to have been applied for a property.
func mustSee(prop string) []string {
	switch prop {
	case "C01", "C02", "C10", "C11", "C12", "C13", "C14", "C17":
		return []string{prop + " effects", "acceptances"}
	case "C04", "C05":
		return []string{prop + " rejections", "acceptances"}
	case "C06":
		return []string{"C06 rejections", "acceptances"}
	case "C07":
		return []string{"C07 rejections", "acceptances", "stacks ended"}
	case "C08":
		return []string{"rejections", "C08 nil returns"}
	case "C09":
		return []string{"C09 nil returns", "error paths of the sink and the indenter"}
	case "C15":
		return []string{"C15 effects", "C15 indenters", "C15 wraps", "C15 written", "C15 nothing written"}
	case "C16":
		return []string{"acceptances", "C16 option calls", "C16 settings", "C16 buffers", "C16 indent options"}
	case "C03":
		return []string{"C03 acceptances", "C03 refusals"}
	case "C18":
		return []string{"C18 fields kept", "C18 values"}
	case "C19":
		return []string{"C19 outcomes of Do", "C19 outcomes of Must", "C19 outcomes of Set", "C19 outcomes of Panic", "C19 outcomes of Unwrap"}
	case "C22":
		return []string{"C22 names", "C22 flags", "C22 sets of kinds", "C22 states", "C22 node types", "C22 recorded kinds", "C22 recorded flags"}
	case "C23":
		return []string{"C23 writer calls", "C23 failures", "C23 successes", "C23 calls expected", "C23 fields", "C23 fields read", "C23 ends of the program"}
	case "C20", "C21":
		return []string{"paths"}
	case "C28":
		return []string{"C28 calls to accept", "C28 misplaced nodes"}
	case "C27":
		return []string{"paths", "C27 loops", "stacks ended", "C09 calls on a failed writer"}
	}
	return nil
}

func explain(prop string) string { return explanations[prop] }

var explanations = map[string]string{
	"C01": "Every call of the API was interpreted over the SSA form of the current source from every abstract writer state reachable by calls (fixpoint), with all strings and flags abstract. Rule: on each path the pieces written are those of the model: '>' before the first child or content, '</' prefix name '>' or '/>' at the end, once each.",
	"C02": "The escapers were summarised as maps from characters to pieces (with the copies of runs between them), and every path that writes a text, an attribute value or a default was inspected. Rule: the value is written through a map whose every character's image decodes to that character (or U+FFFD), and nothing of it is written otherwise.",
	"C03": "For each validator, the set of characters at the first and at later positions on which each exit is taken was computed from its SSA form, and the name table from its initialiser. Rule: the sets refused are the complements of the productions' classes.",
	"C04": "On every path of every call, what is known of a string at the moment it is written (class of names, not empty, terminators absent) was compared with what its position needs. Rule: a string without the facts is not written, and a call handed it returns an error.",
	"C05": "Every call from every reachable abstract state was compared with the table of permitted parents and the state of the start tag. Rule: accepted exactly if permitted; a refused call writes nothing.",
	"C06": "The stack at the end of every path was compared with the model's. Rule: Start pushes one, Write and Block leave the depth, End pops one and reveals the node below with its child flag; an End that does not fit is refused and changes nothing.",
	"C07": "The calls that end several nodes were interpreted over known stacks of every mixture of kinds (and the output and stack compared), and as part of the closure. Rule: innermost first, each with its own end, down to the target and no further.",
	"C08": "The error each check made was followed along every path of every call. Rule: no path returns nil after an error was made by a check, and no error made is overwritten in a loop.",
	"C09": "Each write to the buffer leaves an error pending until it is observed; after a failure every later write fails. Rule: no path returns nil with an unobserved error, and Flush and EndAllFlush return what the buffer's Flush returned.",
	"C10": "Every declaration was interpreted with every combination of empty and non-empty fields and flags. Rule: the pieces written are those of the production, in its order, and a combination without a production is refused.",
	"C11": "StartDoc was interpreted with every combination of version, encoding, standalone and their suppression. Rule: the pieces written are those of the model, in order.",
	"C12": "Comments, CDATA sections and PIs, written whole and piecewise, in every reachable state. Rule: delimiters once each, content pieces verbatim and in order between them.",
	"C13": "Elements and attributes with and without prefixes and URIs were interpreted in every reachable state, with the bindings of the innermost element as part of the state. Rule: one declaration per prefix of an element, bound to the first URI; another URI is an error.",
	"C14": "Start, Write, Block, WriteAttr and the typed methods were interpreted over lists of each shape, over lists longer than any length the code compares them with, and Write, Start, WriteAttr and Block over a list of unknown length. Rule: each argument once, in order, until the first error; a typed call's paths are those of the generic call.",
	"C15": "Every event the writer sends its indenter was compared with the model on every path, and the built-in indenter interpreted from every pair of events at every nesting. Rule: every transition once with its true state and kind; only newline and indent strings written, in permitted places, and the nesting balanced.",
	"C16": "Open and OpenEncoding were interpreted with none, one and two arbitrary options, and each option's closure. Rule: one buffer, built on the encoder's writer where there is one, of the size set; options after the defaults and in order.",
	"C17": "Raw in every reachable state. Rule: the string, once, verbatim; the writer's state is the one before.",
	"C18": "Each setter was interpreted with abstract receiver and argument. Rule: the value is the argument through the conversion named (function, base, bit size), every other field the receiver's.",
	"C19": "Each method of ErrCollector was interpreted over every list of up to four nil and non-nil errors, and longer ones than any length the code compares them with, with and without an error held. Rule: error, index and position of the first; panics exactly where the property says.",
	"C20": "Every store on every path of every call was classified by what it may reach. Rule: none to package variables after initialisation, none to memory reachable from the arguments; an indenter is made per writer.",
	"C21": "Every index, slice, dereference, assertion, conversion, map write and explicit panic on every path of every call. Rule: it is unreachable, or its condition always holds.",
	"C22": "The tables were evaluated from their initialisers and read through the methods for every kind, state and mask; every Start was interpreted for the kind and flag it records. Rule: distinct, complete, agreeing.",
	"C23": "The script runner was interpreted over every script of one or two commands, every string abstract. Rule: the call made is that of the table for the action and kind, each parameter reaches its field, and everything else fails.",
	"C28": "Every call from every reachable abstract state of a writer without enforcement was compared with the model, which then rejects only what no setting allows. Rule: no other path returns an error unless the sink or the indenter failed.",
	"C27": "Every loop on every path of every call was followed, by unrolling or as a fixpoint over the characters of a string, also after the sink has failed. Rule: no round of a loop leaves its variables and all memory as they were.",
}

func extraJobs(prop, tier string) []job {
	switch prop {
	case "C03":
		return []job{extraJob(prop, "the validators", checkValidators)}
	case "C18":
		return []job{extraJob(prop, "the setters", checkSetters)}
	case "C19":
		return []job{extraJob(prop, "the error collector", checkCollector)}
	case "C23":
		return []job{extraJob(prop, "the script runner", checkScripts)}
	case "C16":
		return []job{extraJob(prop, "opening and options", checkOpen)}
	case "C14":
		return []job{extraJob(prop, "lists of any length", checkLists)}
	case "C09", "C15":
		return []job{{name: "the built-in indenter", props: prop, run: checkIndenter}}
	case "C20", "C21", "C27":
		// what is not called through a writer
		return []job{extraJob("C03", "the validators", checkValidators), extraJob("C18", "the setters", checkSetters), extraJob("C19", "the error collector", checkCollector),
			extraJob("C16", "opening and options", checkOpen), {name: "the built-in indenter", props: "C15", run: checkIndenter}, extraJob("C22", "the tables of kinds and states", checkKinds)}
	case "C22":
		return []job{extraJob(prop, "the tables of kinds and states", checkKinds), {name: "nodes started", props: prop, run: checkRecorded}}
	}
	return nil
}
