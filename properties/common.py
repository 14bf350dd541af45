"""Parts shared by the properties."""
MODELS = 'paradigm/_core/models.py'
ANNOTATED = 'paradigm/_core/annotated.py'
SIGNATURE_PRECONDITION = (
    'precondition of the contracts: the signature satisfies the invariant of '
    'PlainSignature established by its constructor (the subject of C05) and '
    'was not altered through private attributes')
NAMES_ARE_STRINGS = ('parameter names are str instances and positional '
                     'arguments are arbitrary opaque objects')
TERMINATION = 'termination is not verified (all loops are over finite inputs)'
