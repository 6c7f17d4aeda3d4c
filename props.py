"""Which models, trace specification and harness decide each property."""

COMMON = ["main.go", "common.go"]
ABI = COMMON + ["abi.go", "abigen.go", "abidrv.go", "abiprops.go", "chunks.go", "canon.go"]

# harness area -> source files in harness/
AREAS = {
    "abi": ABI,
    "bin": COMMON + ["chunks.go", "bin.go"],
    "rt": COMMON + ["rt.go"],
    "wat": COMMON + ["lexhist.go", "tree.go", "watlex.go", "watnum.go", "watparse.go", "wastparse.go", "chunks.go", "watdec.go"],
    "txt": COMMON + ["codec.go", "corevals.go"],
    "wit": COMMON + ["lexhist.go", "tree.go", "witlex.go", "witparse.go"],
}


def m(module, quick, thorough, **kw):
    return dict(module=module, cfg=quick + ".cfg", cfg_quick=quick + ".cfg", cfg_thorough=thorough + ".cfg", **kw)


def tiers(module, **kw):
    return m(module, module + "_quick", module + "_thorough", **kw)


ABI_ASSUME = ["values are checked through the exported functions of abi/io and encoding",
              "memories below 2^30 bytes; handle numbers are assigned lowest-freed-last-first"]

def abi(note, *models):
    return dict(area="abi", trace="T_ABI", assumptions=ABI_ASSUME, models=list(models), note=note)


def canon(scene, note):
    base = "MC_Canon_" + scene
    return dict(area="abi", trace="T_Canon", note=note, models=[
        m("MC_Canon", base + "_quick", base + "_thorough"),
        m("MC_Canon", base + "_deep_quick", base + "_deep_thorough")],
        assumptions=["a history ends at the first call that fails; handle operations that trap are followed by more operations",
                     "freed handle numbers are reused most recently freed first"])


BIN_ASSUME = ["functions have at most 50000 locals; section ids above 13 may be skipped or rejected"]
LEX_ASSUME = ["nothing is said about a lexer that has returned an error from reading a token"]

PARSE_ASSUME = ["where the parser accepts more than the text format (order of parts, unfolded blocks without end, tables without limits) an error is right as well",
                "texts on whose tokens the lexer specification leaves a choice are only required not to panic"]

NOT_APPLICABLE = []
NOTES = ("Every verdict comes from TLC judging a recording of what the real code did; a rejected event is executed "
         "again before it is reported. KNOWN_FINDINGS.md lists repaired and recorded defects.")

PROPS = {
    "C01": canon("table", "All histories of create/drop/transfer up to the model's length plus long random ones with nested calls."),
    "C02": canon("lend", "All histories of lend/borrow/drop/exit up to the model's length plus long random ones with nested calls."),
    "C03": canon("own", "All histories of ownership transfers and drops up to the model's length plus long random ones."),
    "C04": canon("calls", "All nestings of lifted and lowered calls up to the model's length plus random ones with re-entrant attempts."),
    "C05": abi("All types grown to the model's depth plus random deeper ones; sizes and alignments compared exactly.",
               m("MC_Layout", "MC_Layout_layout_1", "MC_Layout_layout_2")),
    "C06": abi("All types grown to the model's depth plus random signatures around the flat limits; compared exactly.",
               m("MC_Layout", "MC_Layout_flat_1", "MC_Layout_flat_2")),
    "C07": abi("Sample values of all types grown to the model's depth plus random values; every byte of memory compared.",
               m("MC_Values", "MC_Values_store_quick", "MC_Values_store_thorough")),
    "C08": abi("Sample values of all types grown to the model's depth plus random values and core values; compared exactly.",
               m("MC_Values", "MC_Values_lower_quick", "MC_Values_lower_thorough")),
    "C09": abi("All contents of a small memory over a few bytes, edge addresses and lengths, plus random ones.", tiers("MC_Untrusted")),
    "C10": abi("All combinations of allocator answers over the first requests plus random faults and ill-typed values.", tiers("MC_Alloc")),
    "C11": abi("All short strings and byte strings over the edges of the encodings plus random text.", tiers("MC_Unicode")),
    "C12": dict(area="abi", trace="T_Canon", models=[tiers("MC_Cross")], assumptions=ABI_ASSUME,
                note="All signatures of a small universe under every flat limit and encoding pair plus random nested calls."),
    "C13": dict(area="bin", trace="T_Leb", models=[tiers("MC_Leb")], assumptions=[],
                note="All byte strings over the edge bytes up to the model's length and all integers over edge bytes plus random ones, through all three decoders and several readers."),
    "C14": dict(area="bin", trace="T_Wasm", models=[tiers("MC_Wasm", workers=6)], assumptions=BIN_ASSUME,
                note="Encodings of all modules grown to the model's size plus random larger ones, padded integers, other sections and slow readers."),
    "C15": dict(area="bin", trace="T_Wasm", models=[tiers("MC_Wasm", workers=6)], assumptions=BIN_ASSUME,
                note="Prefixes, single byte changes, insertions, deletions and huge counts over the model's binaries and random ones, plus random bytes."),
    "C16": dict(area="wat", trace="T_WatLex", models=[tiers("MC_WatLex")], assumptions=LEX_ASSUME,
                note="All texts, number-like words and next/peek/clone histories up to the model's lengths plus random longer ones; every token compared exactly."),
    "C17": dict(area="wat", trace="T_WatNum", models=[tiers("MC_WatNum")], assumptions=[],
                note="Literals around powers of two, around midpoints of neighbouring floats and by grammar, plus random ones, as constants in modules and scripts; compared bit by bit."),
    "C18": dict(area="wat", trace="T_WatParse", models=[tiers("MC_WatParse")], assumptions=PARSE_ASSUME,
                note="All viable token sequences up to the model's length inside of seven frames, each also with one wrong token, plus random modules with random layout and mistakes; whole trees compared."),
    "C19": dict(area="wat", trace="T_WastParse", models=[tiers("MC_WastParse")], assumptions=PARSE_ASSUME,
                note="All viable token sequences up to the model's length inside of six frames, each also with one wrong token, plus random scripts with random layout and mistakes; whole trees compared."),
    "C20": dict(area="wit", trace="T_WitLex", models=[tiers("MC_WitLex")], assumptions=LEX_ASSUME,
                note="All texts and next/peek/clone histories up to the model's lengths plus random longer ones; every token compared exactly."),
    "C21": dict(area="wit", trace="T_WitParse", models=[tiers("MC_WitParse")], assumptions=PARSE_ASSUME,
                note="All viable token sequences up to the model's length inside of twelve frames, each also with one wrong token and completed to a document, plus random documents with random layout and mistakes; whole trees compared."),
    "C22": dict(area="rt", trace="T_Store", models=[tiers("MC_Store")], assumptions=["export names of a module are distinct"],
                note="All sequences of instantiations of the model's modules up to its length plus long random ones; every store and lookup compared after each step."),
    "C23": dict(area="txt", trace="T_Codec", models=[tiers("MC_Codec")],
                assumptions=["damaged text may be refused or shown with replacement characters, however many"],
                note="All byte strings over the model's bytes in all ways of arriving plus random longer texts, damage, broken readers and full writers; output compared exactly."),
    "C24": dict(area="txt", trace="T_CoreValues", models=[tiers("MC_CoreValues")],
                assumptions=["nothing is said about an iterator that has returned an error, nor about reading a value at a kind that no flattened type shares with its own"],
                note="All ways of taking the model's values through its views plus random longer ones; every value, index and length compared."),
    "C25": dict(area="wat", trace="T_WatDecode", models=[tiers("MC_WatParse")], assumptions=PARSE_ASSUME + ["what follows the module may be refused or not be looked at; the content of the result is not judged"],
                note="The model's token sequences and random modules, whole and broken, arriving in several ways; acceptance and kind of the result compared."),
}
