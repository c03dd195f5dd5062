import json, pathlib
V = pathlib.Path(__file__).resolve().parent
L = {
"C01": ["TLA+ denotation of unit texts; TLC emits exact conversion plans; converted values compared",
        "TLC judges every recorded conversion against the specification; the conversions are hand-picked and sampled (seeded), not exhaustive. Numbers are compared with a propagated floating-point tolerance (about 1e-11 relative)."],
"C02": ["TLA+ denotation with offsets; TLC emits exact conversion plans; converted values compared", "As C01, for texts with offsets."],
"C03": ["TLA+ denotation with logarithms; TLC emits conversion plans; converted values compared",
        "As C01, for texts with logarithms. Values where the exact result leaves the range of floating point are skipped."],
"C04": ["TLA+ dimension algebra decides existence for recorded unit pairs (TLC judges)", "All ordered pairs of a pool, sampled pairs of generated units and systems."],
"C05": ["TLA+ plan algebra: laws model-checked by TLC to a bounded depth; recorded chains and uses of the real converters judged by TLC",
        "Laws exhaustive for units of up to 3 (thorough: 4) operations in the model; the code's chains and array uses are sampled."],
"C06": ["TLA+ exponent algebra; TLC judges recorded dimensionalities", "Hand-picked and sampled texts over several systems, and all named units of them."],
"C07": ["TLA+ registry model; TLC judges recorded lookups in colliding systems", "Sampled systems over few letters, so that spellings collide."],
"C08": ["TLA+ session state machine; traces of registrations and lookups recorded from the code are validated by TLC", "All orders of a small universe with lookups in every gap, and sampled sessions."],
"C09": ["TLA+ session state machine; AllOrNothing model-checked; recorded traces validated by TLC", "Model exhaustive to depth 4 of a small universe; sampled sessions of the code."],
"C10": ["TLA+ lexer and parser specification; TLC judges recorded readings by canonical meaning", "Grammar laws model-checked for all texts of 3 (thorough: 4) pieces; the code on all texts of up to 3 pieces over the kinds of tokens, and sampled longer ones."],
"C11": ["TLA+ lexer and parser specification decides acceptance; TLC judges recorded outcomes", "As C10, with junk characters, mutations, numbers beyond representation and texts of very many operations; texts of more than 100 tokens or 25 brackets may be refused with SyntaxError; powers of ten beyond memory are excluded."],
"C12": ["TLA+ denotation applied to the text forms; TLC judges that they mean the same", "All nestings of a pool of texts to depth 2, and sampled texts."],
"C13": ["TLA+ normal form of units decides equality; TLC judges recorded comparisons", "All pairs of pools and sampled pairs."],
"C14": ["TLA+ timestamp lexer/parser and date denotation; TLC judges recorded outcomes", "Enumerated timestamp forms, sampled combinations, all contexts."],
"C15": ["TLA+ registry model holding an independent transcription of the database; TLC judges recorded lookups and emits plans", "All spellings, all prefixed spellings in the thorough tier (a sample in the quick tier)."],
"C16": ["TLA+ model of unit documents, model-checked; its documents and generated ones are loaded by the code, TLC judges what is registered", "Model exhaustive to 3 (thorough: 4) elements of a small universe, whose documents are loaded by the code; sampled documents over all elements, repeated and unknown content, encodings; enumerated names for the plural rule."],
"C17": ["TLA+ denotation: plans for printed expressions; TLC judges recorded command-line output", "Sampled texts and pairs of texts."],
"C18": ["TLA+ model of concurrent resolution, all interleavings by TLC, whose schedules are replayed on real threads; interruptions of the code at lines, instructions and in the parser; recorded traces validated by TLC", "Deterministic schedules with bounded preemptions: those of the model with up to 2 (thorough: 3) switches, and sampled interruptions."],
"C19": ["TLA+ session state machine over two systems; HeldStays/Independent model-checked; recorded traces validated by TLC", "Model exhaustive to depth 4 of a small universe; sampled sessions of the code."],
"C20": ["TLA+ canonical form of expressions; TLC judges recorded simplifications", "All products of up to 3 factors from a pool, sampled deeper expressions."],
"C21": ["TLA+ value semantics of times and date-times (faithful text model-checked); TLC judges recorded comparisons, hashes and texts", "All combinations of boundary field values."],
}
(V / "levels.json").write_text(json.dumps(L, indent=1) + "\n")
