from mc import codec

PID = "C07"
KINDS = {"record": codec.run}
RULE = (
    "all single-field deviations over boundary domains, all field pairs over three "
    "values, all shapes up to the stated sizes; a state is a distinct record content"
)
BOUNDS = {
    "quick": "numbers at every code-length boundary; lists up to 3 elements exhaustive",
    "thorough": "all 16-bit values; all bit sets of 16-bit fields; all pairs of range bits",
}
CHUNK = 4


def cases(tier):
    yield from codec.cases(PID, tier)
