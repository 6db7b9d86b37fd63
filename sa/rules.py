"""What is decided for each property (evidence: rule, assumptions)."""
FIELD = ('Abstract run of parse_sentence over the MIR with all payload bits of the message type free; each reported field, as a function of those bits, '
         'must equal the function the layout table gives, in value and in presence. A difference is reported with the construct that gives the field its value.')
TEXTF = ('Abstract run of parse_sentence over the MIR with the characters of the fields free within each shape (length, sign, decimals, empty, malformed); '
         'each reported field, as a function of those characters, must equal what the sentence layout gives, and rejection must happen exactly where it says so.')
HIST = ('Abstract run of a history of sentences on one parser, with ids, channels, kinds, payloads and the retained entries free and any number of unknown other entries; '
        'the result of each sentence, and the retained state where the property speaks of it, must equal what the statement gives.')
RULES = {p: FIELD for p in ('P07', 'P08', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21', 'P22', 'P23', 'P24', 'P43')}
RULES.update({p: TEXTF for p in ('P06', 'P30', 'P31', 'P32', 'P33', 'P34', 'P35', 'P36', 'P37', 'P38', 'P39', 'P45')})
RULES.update({p: HIST for p in ('P25', 'P26', 'P27', 'P28', 'P29')})
RULES.update({
    'P01': 'Every panic edge met in an abstract run (assert terminators of the MIR; slicing, unwrap, indexing, arithmetic and constructor preconditions of the summaries) must have an unsatisfiable path condition; the panic sites covered are listed.',
    'P02': 'No cycle in the call graph of parse_sentence; every loop of the abstract runs ends within a bound given by the length of the sentence while all its digits are free; what a sentence adds to the retained state is bounded by its length.',
    'P03': 'With all characters and both digits free, the set of inputs accepted must equal the set where the digits are the upper-case hexadecimal exclusive-or, and the rejected ones must be corrupted-sentence errors.',
    'P04': 'State before and after the rejected sentence compared structurally under its path condition; where the representation differs, probe sentences are interpreted in both states and their results compared.',
    'P05': 'With the characters of the type free, the set of inputs for each result variant must equal the set of type texts that call for it.',
    'P09': 'With a payload character free, the decoded bits must equal the six-bit code on the set of valid characters, and the message must be rejected on the complement.',
    'P40': 'No callee in the call graph may be classified as I/O, environment, randomness or thread effect; no mutable static may be reachable; hash order may not reach a result; clock variables may occur only in the date parts.',
    'P41': 'Send and Sync of the parser and its results must hold according to the type checker; no shared ownership, raw pointer or interior mutability in the field types; no mutable static reachable.',
    'P42': 'Each accessor interpreted over an arbitrary value of its type must return the field it names.',
    'P44': 'The result in an arbitrary retained state must equal the result in an empty one, and the state after must equal the state before (structurally, or to probe sentences).',
    'P46': 'Each Display implementation interpreted over every value of its type: no panic, text names the value, texts of values with different meanings differ.',
    'P47': 'The error variant, as a function of the free characters, must be the one of the cause; Display and description of an error interpreted over a free message.',
    'P48': 'Two abstract runs on one payload with different envelopes must give equal results.',
})
LIB = 'Library functions without MIR (regex, chrono, hashbrown, formatting, float parsing) behave as their summaries in sa/models*.py say.'
LENGTHS = 'String and payload lengths are those of the scenarios; everything within a length is free.'
STATE = 'The retained state is one reachable by the sentences of the scenario plus any number of unknown entries with other keys.'
ASSUME = {}
for _p in range(1, 49):
    _p = 'P%02d' % _p
    ASSUME[_p] = [LIB, LENGTHS]
    if _p in ('P01', 'P04', 'P25', 'P26', 'P27', 'P28', 'P29', 'P44'):
        ASSUME[_p].append(STATE)
for _p in ('P40', 'P41'):
    ASSUME[_p] = ['Library callees are classified by their resolved path; auto traits are what the type checker answers.']
for _p in ('P42', 'P46'):
    ASSUME[_p] = [LIB]
