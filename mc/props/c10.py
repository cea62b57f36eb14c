from mc import codec

PID = "C10"
KINDS = {"record": codec.run}
RULE = (
    "all single-field deviations over boundary domains, all shapes and type "
    "sequences up to the stated sizes; a state is a distinct record content"
)
BOUNDS = {
    "quick": "see the families of this property in mc/codec.py; sequences up to 3-5 elements",
    "thorough": "sequences one or two elements longer, dense integer ranges",
}
CHUNK = 4


def cases(tier):
    yield from codec.cases(PID, tier)
