"""What each check decides, and how far the proof goes (MANIFEST.json, evidence)."""

TECH = 'contract-based deductive verification of the real code (pyvc: verification conditions from the live source, discharged by z3/cvc5)'
BOUNDED = TECH + '; bounded executable contracts for the rest'
REST = ' Bounded besides: executable contracts on generated inputs (oracle/), which also look for the input behind a failed obligation.'
INV = ' Assumes of every instruction what the representation invariant in contracts/world.py says (evaluated on generated documents, see assumptions_evaluated).'
RE = ' Trusted: the model of re (a match is described by its groups, derived from the parse tree of the pattern).'
REP = ' The reporters are modelled by the log of what they are told to show.'

META = {
    'C01': ('proof', TECH, 'Proved: Analyzer.analyze and its error tokenizer, and all of Resolver, end and raise nothing but ParseError, for every input and every document.' + RE +
            'parse, Context.__init__ and Analyzer.__init__ hand on what they are given and let only those errors pass. Not under contract, bounded only: the reporters while they print the error.' + REST),
    'C02': ('proof', BOUNDED, 'Proved (obligations text-*): every key, value, template, comment and operator of every instruction is the slice of the line of its group of the match. '
            'Which group a line matches is left to the regular expression: that part (the grammar itself) is bounded.' + RE + REST),
    'C03': ('proof', TECH, 'Proved (obligations nesting-*): every step of the main loop attaches sections and elements as stated and rejects exactly the layer skips.' + RE + REST),
    'C04': ('proof', TECH, 'Proved (obligations attach-*): every step of the main loop appends, converts or rejects as stated.' + RE + REST),
    'C05': ('proof', TECH, 'Proved: Context.value is the fold of the continuations, for any number of them; the analyzer records them (continued-*).' + INV + RE + REST),
    'C06': ('proof', TECH, 'Proved: Context.value of a multiline field is the text between first and last line; the analyzer finds its lines and its end (multiline-*).' + INV + RE + REST),
    'C07': ('proof', TECH, 'Proved: Context.comment, for any number of lines; the analyzer attributes comments (comment-*).' + INV + RE + REST),
    'C08': ('proof', TECH, 'Proved: what the resolver sets (mirror, extend, kind), what Context.items/entries/value read through it, and that nothing but copies is changed.' + INV +
            ' Assumed in the resolver: members of element lists have keys and lie within their section, map entries are distinct records.' + REST),
    'C09': ('proof', TECH, 'Proved: Resolver.consolidate_sections/resolve_section set mirror and extend of sections and of merged subsections as stated; Context.elements reads them.' + INV + REST),
    'C10': ('proof', TECH, 'Proved: Resolver.index and resolve look up exactly the templates; which errors are raised when; recursion terminates.' + REST),
    'C11': ('proof', TECH, 'Proved for every section, fieldset, key and kind: 28 queries in two modes against one specification.' + INV + REP + REST),
    'C12': ('proof', TECH, 'Proved: plural queries and raw() of every class against sequences of the instructions.' + INV + REST),
    'C13': ('proof', TECH, 'Proved: every method of every proxy class, for chains of any depth.' + REP + REST),
    'C14': ('proof', TECH, 'Proved for an arbitrary loader (returns anything, raises ValueError or anything else): called how often, with what, what is passed on.' + INV + REP + REST),
    'C15': ('proof', TECH, 'Proved about an arbitrary element below: touch, raw and assert_all_touched, one level per function.' + INV + REP + REST),
    'C16': ('proof', TECH, 'Proved about an arbitrary section or fieldset below; every query in both modes; elements obtained later inherit the requirement.' + INV + REP + REST),
    'C17': ('proof', TECH, 'Proved: every error of every method has the stated selection, cursor and message; the analyzer records ranges inside the line (place-*).' + INV + REP + REST),
    'C18': ('exploration', BOUNDED, 'Proved: which lines every error tells its reporter to report, question or indicate (the log of the reporter); what each of these reports marks, which lines are '
            'filled in around the marked ones and which are left out, for reports and documents of any length, and that no mark is set outside of the document. '
            'Assumes of documents that lines of instructions exist and follow each other (evaluated, see assumptions_evaluated). '
            'Bounded: the index of lines, the colours of the terminal and what is put together of the lines, for generated documents, among them ones around every power of ten of lines up to 123456, with all reporters.'),
    'C19': ('proof', TECH, 'Proved for lines and for indices against one specification: the check_* functions, check_in_section, comments_in_section and lookup, one level of nesting per call. '
            'Assumes of documents that instructions follow each other in the order of their lists, multiline lines without a gap (evaluated, see assumptions_evaluated).' + INV + REST),
    'C20': ('proof', TECH, 'Proved for an arbitrary name and function: what _register stores on each class, when called, is one call of the generic method with the loader, its result or exception passed on; '
            'register calls _register for exactly the given definitions. Assumes that no class defines a method of that name itself.' + REST),
    'C21': ('proof', TECH, 'Proved: every message requested anywhere exists in every locale with that many parameters; every message with parameters renders each of them.' + REST),
    'C22': ('proof', TECH, 'Proved: the frame of every query, error and raw() (what it leaves unchanged), and that results are functions of what the frame protects. '
            'Context.__init__ and parse touch nothing that existed before.' + INV + REP + REST),
    'C23': ('proof', TECH, 'Proved: conversions and yields_* of Element and SectionElement, parents set on construction.' + INV + REP + REST),
}
META = {p: {'level': l, 'technique': t, 'level_note': n} for p, (l, t, n) in META.items()}
