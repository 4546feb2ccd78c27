# per property: technique, level note
B="Exhaustive within the bounds recorded in the evidence file; nothing is claimed beyond them. Trusts the reference model (mc/peg.go), which every execution is compared with, and Go's runtime and regexp. "
T={
'P01':("explicit enumeration of grammars x inputs against a reference PEG interpreter",B),
'P02':("explicit enumeration of grammars x inputs against a reference PEG interpreter (productions)",B),
'P03':("explicit enumeration of repetitions (value x join x bounds x context) x inputs against a reference interpreter",B),
'P04':("explicit enumeration of left-recursive grammars x inputs against a seed-growing reference interpreter",B+"Grammars whose left-call graph is irreducible are outside of the property."),
'P05':("explicit enumeration of grammars x cache subsets x inputs; exact evaluation counts per (rule, position)",B),
'P06':("exhaustive exploration of operation histories on one grammar, differential against fresh grammars",B),
'P07':("stateless model checking of concurrent parses under a cooperative scheduler (preemption bounded), all nestings; every schedule also under the race detector, from which the scheduler is hidden","All schedules within the preemption bound at the granularity of rule evaluations and callbacks; a race between two accesses within such steps is reported by the detector (happens-before), whatever their order."),
'P08':("explicit enumeration of all rule texts over token alphabets against an independent reader of the documented syntax",B+"The structure is observed through the language and trees of the compiled rule. Texts listed as quirks in DESIGN.md are only checked not to crash."),
'P09':("explicit enumeration of all rule texts over token alphabets, differential between four generations of the grammar of grammars",B),
'P10':("explicit enumeration of grammars x multi-line inputs against a reference interpreter that tracks the furthest success",B+"For left-recursive grammars only the bounds of the offset and its line and column are decided."),
'P11':("explicit enumeration of grammars x multi-line inputs against the spans of a reference interpreter",B+"Only nodes freshly built by their rule are compared; a node passed through several rules has the origin of the last one."),
'P12':("exhaustive exploration of cursor operation sequences against a byte-offset cursor",B),
'P13':("exhaustive exploration of tokenizations x cursor operation sequences against a byte-offset cursor with an explicit position map",B),
'P14':("explicit enumeration of grammars x texts x tokenizations, differential between ParseTokens and ParseString",B),
'P15':("explicit enumeration of all short Go token sequences, separators and character strings, and of call histories, against go/scanner",B),
'P16':("exhaustive exploration of operation sequences on native values against models of an ordered map, a list and integers",B),
'P17':("exhaustive enumeration of trace option combinations x rule options x call options x grammars x inputs, differential against muted runs",B),
'P18':("exhaustive enumeration of the values of TRACE up to a number of names, against an accumulator",B+"One known finding (default options ignored) is recorded."),
'P19':("exhaustive enumeration of nullable and left-recursive grammars x inputs (arbitrary bytes) and of parametric size families, under a watchdog",B+"Sizes of the parametric families are bounded; non-termination is decided by a generous time limit."),
'P20':("explicit enumeration of grammars x layouts of their lines x inputs against a reference interpreter of the flat grammar",B),
'P21':("explicit enumeration of grammars x callback behaviours x inputs, comparing values and sets of calls with a reference interpreter; every panic point of every parse",B+"Calls are compared as sets."),
'P22':("exhaustive enumeration of arguments and operation sequences up to stated sizes against executable specifications",B),
'P23':("explicit enumeration of grammars and layouts of their lines, comparing every printed row with a table computed from the grammar",B+"Colours are ignored; names of kinds of parsers only have to be consistent."),
'P24':("explicit enumeration of grammars x inputs x trace options, comparing every line of the trace with the one of a reference interpreter run with a memory",B+"The position shown with a failed result and the amount of text shown before a position are left unspecified. With left recursion the structure of the trace and the results it reports are decided, not every line."),
'P25':("explicit enumeration of grammars x multi-line inputs, comparing messages with those computed from the three offsets of a reference interpreter",B),
}
