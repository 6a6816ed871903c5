"""property -> recording module:function and TLA+ trace module"""

BOTH = ('quick', 'thorough')
DEEP = ('thorough',)

SUITES = {
    'B01': 'rec_binv:b01',
    'B02': 'rec_binv:b02',
    'P01': 'rec_perm:p01',
    'P02': 'rec_perm:p02',
    'P03': 'rec_perm:p03',
    'S01': 'rec_sig:s01',
    'S02': 'rec_sig:s02',
    'W01': 'rec_walsh:w01',
    'W02': 'rec_walsh:w02',
    'T01': 'rec_setpart:t01',
    'T02': 'rec_setpart:t02',
    'T03': 'rec_setpart:t03',
    'C01': 'rec_comp:c01',
    'C02': 'rec_comp:c02',
    'F01': 'rec_boolf:f01',
    'F02': 'rec_boolf:f02',
    'F03': 'rec_boolf:f03',
    'F04': 'rec_boolf:f04',
    'F05': 'rec_boolf:f05',
    'F06': 'rec_linear:f06',
    'F07': 'rec_linear:f07',
    'F08': 'rec_class:f08',
    'F09': 'rec_class:f09',
    'F15': 'rec_class:f15',
    'F10': 'rec_split:f10',
    'F11': 'rec_split:f11',
    'F12': 'rec_split:f12',
    'F13': 'rec_split:f13',
    'F14': 'rec_split:f14',
    'H01': 'rec_help:h01',
    'H02': 'rec_help:h02',
    'H03': 'rec_help:h03',
    'H04': 'rec_help:h04',
    'X01': 'rec_pure:x01',
    'X02': 'rec_own:x02',
    'R01': 'rec_report:r01',
}

TRACE = {
    'B01': 'TraceBinv',
    'B02': 'TraceBinv',
    'P01': 'TracePerm',
    'P02': 'TracePerm',
    'P03': 'TracePerm',
    'S01': 'TraceSigPerm',
    'S02': 'TraceSigPerm',
    'W01': 'TraceWalshPerm',
    'W02': 'TraceWalshPerm',
    'T01': 'TraceSetPart',
    'T02': 'TraceSetPart',
    'T03': 'TraceSetPart',
    'C01': 'TraceComp',
    'C02': 'TraceComp',
    'F01': 'TraceBoolf',
    'F02': 'TraceBoolf',
    'F03': 'TraceBoolf',
    'F04': 'TraceBoolf',
    'F05': 'TraceBoolf',
    'F06': 'TraceLinear',
    'F07': 'TraceLinear',
    'F08': 'TraceClass',
    'F09': 'TraceClass',
    'F15': 'TraceClass',
    'F10': 'TraceSplit',
    'F11': 'TraceSplit',
    'F12': 'TraceSplit',
    'F13': 'TraceSplit',
    'F14': 'TraceSplit',
    'H01': 'TraceHelper',
    'H02': 'TraceHelper',
    'H03': 'TraceHelper',
    'H04': 'TraceHelper',
    'X01': 'TracePure',
    'X02': 'TraceOwn',
    'R01': 'TraceReport',
}

# models of the specification alone, checked by TLC alongside: property -> [(module, config)]
MODELS = {
    'B02': [('MC_Binv', 'MC_Binv.cfg', BOTH)],
    'P02': [('MC_Perm', 'MC_Perm.cfg', BOTH), ('MC_Perm', 'MC_PermTriples.cfg', BOTH)],
    'P03': [('MC_Perm', 'MC_Perm.cfg', BOTH)],
    'S02': [('MC_SigPerm', 'MC_SigPerm.cfg', BOTH)],
    'T01': [('MC_SetPart', 'MC_SetPartMerges.cfg', BOTH)],
    'T02': [('MC_SetPart', 'MC_SetPart.cfg', BOTH)],
    'W02': [('MC_WalshPerm', 'MC_WalshPerm.cfg', BOTH)],
    'C01': [('MC_Comp', 'MC_CompFacts.cfg', BOTH)],
    'C02': [('MC_Comp', 'MC_Comp.cfg', BOTH)],
    'F01': [('MC_Boolf', 'MC_Boolf.cfg', BOTH), ('MC_Boolf', 'MC_Boolf3.cfg', DEEP)],
    'F02': [('MC_Boolf', 'MC_Boolf.cfg', BOTH), ('MC_Boolf', 'MC_Boolf3.cfg', DEEP)],
    'F03': [('MC_Boolf', 'MC_Boolf.cfg', BOTH), ('MC_Boolf', 'MC_Boolf3.cfg', DEEP)],
    'F04': [('MC_Boolf', 'MC_Boolf.cfg', BOTH), ('MC_Boolf', 'MC_Boolf3.cfg', DEEP)],
    'F05': [('MC_Boolf', 'MC_Boolf.cfg', BOTH), ('MC_Boolf', 'MC_Boolf3.cfg', DEEP)],
    'F06': [('MC_Linear', 'MC_Linear.cfg', BOTH), ('MC_Linear', 'MC_Linear3.cfg', DEEP)],
    'F07': [('MC_Linear', 'MC_Linear.cfg', BOTH), ('MC_Linear', 'MC_Linear3.cfg', DEEP)],
    'F08': [('MC_Class', 'MC_Class.cfg', BOTH), ('MC_Class', 'MC_Class3.cfg', DEEP)],
    'F09': [('MC_Class', 'MC_Class.cfg', BOTH), ('MC_Class', 'MC_Class3.cfg', DEEP)],
    'F15': [('MC_Class', 'MC_Class.cfg', BOTH), ('MC_Class', 'MC_Class3.cfg', DEEP)],
    'F10': [('MC_Split', 'MC_Split3.cfg', BOTH)],
    'F11': [('MC_Split', 'MC_Split3.cfg', BOTH)],
    'F12': [('MC_Split', 'MC_Split3.cfg', BOTH), ('MC_Split', 'MC_Split4.cfg', DEEP)],
    'F13': [('MC_Split', 'MC_Split3.cfg', BOTH), ('MC_Split', 'MC_Split4.cfg', DEEP)],
    'F14': [('MC_Split', 'MC_Split.cfg', BOTH), ('MC_Split', 'MC_Split3.cfg', DEEP)],
    'H01': [('MC_Helper', 'MC_Helper.cfg', BOTH), ('MC_Helper', 'MC_HelperDeep.cfg', DEEP)],
    'H02': [('MC_Helper', 'MC_Helper.cfg', BOTH)],
    'H03': [('MC_Helper', 'MC_Helper.cfg', BOTH)],
    'H04': [('MC_Helper', 'MC_Helper.cfg', BOTH)],
    'X01': [('MC_Pure', 'MC_Pure.cfg', BOTH)],
    'X02': [('MC_Own', 'MC_Own.cfg', BOTH)],
    'R01': [('MC_Report', 'MC_Report.cfg', BOTH)],
}

# state graphs written out by TLC and replayed into the real code: property -> [(module, config, tiers)]
GENERATE = {
    'T01': [('MC_SetPart', 'Gen_SetPart%s.cfg' % k, BOTH) for k in 'NZF'],
    'T02': [('MC_SetPart', 'Gen_SetPart%s.cfg' % k, BOTH) for k in 'NZF'],
    'C01': [('MC_Comp', 'Gen_CompN.cfg', BOTH), ('MC_Comp', 'Gen_CompZ.cfg', BOTH)],
    'C02': [('MC_Comp', 'Gen_CompN.cfg', BOTH)],
    'X01': [('MC_Pure', 'Gen_Pure.cfg', BOTH)],
    'X02': [('MC_Own', 'Gen_Own.cfg', BOTH)],
}

# trace modules that carry a state along have their own configuration
CONFIG = {
    'TraceSetPart': 'TraceSetPart.cfg',
    'TraceComp': 'TraceComp.cfg',
    'TracePure': 'TracePure.cfg',
    'TraceOwn': 'TraceOwn.cfg',
}

# share of the way from quick to thorough numbers that quick runs take, where it is not a quarter
SCALE = {
    'X01': 0,
}

# (operation, view) pairs whose corruption may be legal
NO_CANARY = {(op, 'rejected') for op in ('new', 'merge', 'many', 'refine', 'label', 'label block', 'equal', 'complement')} | {('same', 'hash_equal'), ('row', 'vdec')}
