"""What is claimed for each property: (technique, level note)."""
BIT = 'static dataflow analysis of the MIR: bit-precise abstract interpretation (BDD domain), compared with the standard\'s bit layout'
N_BIT = ('Every path of the analysed functions is covered by one abstract run with all inputs of the scenario abstract; joins keep exact guards. '
         'Obligations the domain cannot decide are counted as undecided and not reported. Library code is summarised, not analysed.')
CLAIMS = {}
for _p in ('P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21', 'P22', 'P23', 'P24', 'P43'):
    CLAIMS[_p] = (BIT, N_BIT)
STR = 'static dataflow analysis of the MIR: abstract interpretation with symbolic sentence characters (BDD domain), compared with the field layout of the sentence'
for _p in ('P06', 'P30', 'P31', 'P32', 'P33', 'P34', 'P35', 'P36', 'P37', 'P38', 'P39', 'P45', 'P47', 'P48'):
    CLAIMS[_p] = (STR, N_BIT)
SEQ = 'static dataflow analysis of the MIR over sequences of sentences: abstract interpretation (BDD domain) with a symbolic retained state and any number of other pending entries'
for _p in ('P01', 'P03', 'P05'):
    CLAIMS[_p] = (STR, N_BIT)
for _p in ('P04', 'P25', 'P26', 'P27', 'P28', 'P29', 'P44'):
    CLAIMS[_p] = (SEQ, N_BIT)
CLAIMS['P02'] = ('call-graph analysis for cycles, and abstract interpretation of the MIR with loop, recursion and storage bounds', N_BIT)
CLAIMS['P40'] = ('effect analysis over the call graph of the MIR (denied effects, statics, hash-map order) and dataflow of the clock through the results',
                 'Calls into library code are classified by path, not analysed; calls of unknown library code are counted as undecided.')
CLAIMS['P41'] = ('auto-trait queries to the type checker, ownership walk over the field types, statics reachable in the call graph of the MIR',
                 'Send and Sync are decided by rustc itself; library types count as what their auto traits say.')
CLAIMS['P46'] = ('static dataflow analysis of the MIR of each Display implementation over every value of its type', N_BIT)
CLAIMS['P42'] = ('static dataflow analysis of the MIR of each accessor over an arbitrary value of its type', N_BIT)
NOT_APPLICABLE = {}
