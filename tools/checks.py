import os
NPROC = min(8, os.cpu_count() or 1)
HARNESSES = {
    'cli': dict(src=['cli.cpp', 'cli_dis.cpp', 'cli_refl.cpp', 'cli_link.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'exec': dict(src=['exec.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'linker': dict(src=['linker.cpp', 'linker_reg.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'prepare': dict(src=['prepare.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'reflect': dict(src=['reflect.cpp', 'bgen.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'requirements': dict(src=['requirements.cpp', 'bgen.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'edits': dict(src=['edits.cpp', 'names.cpp', 'bgen.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'programs': dict(src=['programs.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'types': dict(src=['types.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'binary': dict(src=['binary.cpp', 'lookup.cpp', 'malformed.cpp', 'print.cpp', 'bgen.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'grammar': dict(src=['grammar.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'modules': dict(src=['modules.cpp', 'misc.cpp', 'linker.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'misc': dict(src=['misc.cpp', 'pbt.cpp'], repo=['lib', 'common']),
    'helpers': dict(src=['helpers.cpp', 'pbt.cpp'], repo=['lib', 'common']),
    'analyse': dict(src=['analyse.cpp', 'bgen.cpp', 'apigen.cpp', 'ops.cpp', 'ty.cpp', 'spv.cpp', 'pbt.cpp'], repo=['lib', 'common'], link=['-lSPIRV-Tools']),
    'containers': dict(src=['containers.cpp', 'pbt.cpp'], repo=['lib', 'common']),
}
PROPS = {
    'P26': dict(h='cli', quick=20000, thorough=300000, min_nontrivial=2000),
    'P03': dict(h='exec', quick=45000, thorough=1000000, min_nontrivial=3000),
    'P11': dict(h='linker', quick=45000, thorough=1000000, min_nontrivial=3000),
    'P12': dict(h='linker', quick=45000, thorough=1000000, min_nontrivial=3000),
    'P16': dict(h='reflect', quick=100000, thorough=2000000, min_nontrivial=3000),
    'P17': dict(h='reflect', quick=500000, thorough=5000000, min_nontrivial=3000),
    'P13': dict(h='requirements', quick=60000, thorough=1000000, min_nontrivial=3000),
    'P09': dict(h='edits', quick=100000, thorough=3000000, min_nontrivial=3000),
    'P18': dict(h='edits', quick=60000, thorough=1000000, min_nontrivial=3000),
    'P19': dict(h='edits', quick=60000, thorough=1000000, min_nontrivial=3000),
    'P25': dict(h='programs', quick=80000, thorough=2000000, min_nontrivial=3000),
    'P01': dict(h='programs', quick=100000, thorough=2000000, min_nontrivial=3000),
    'P02': dict(h='programs', quick=100000, thorough=2000000, min_nontrivial=3000),
    'P04': dict(h='programs', quick=100000, thorough=2000000, min_nontrivial=3000),
    'P10': dict(h='programs', quick=100000, thorough=2000000, min_nontrivial=3000),
    'P07': dict(h='types', quick=50000, thorough=2000000, min_nontrivial=3000),
    'P29': dict(h='types', quick=2500000, thorough=20000000, min_nontrivial=20000),
    'P08': dict(h='types', quick=40000, thorough=2000000, min_nontrivial=3000),
    'P15': dict(h='binary', quick=25000, thorough=5000000, min_nontrivial=3000),
    'P30': dict(h='binary', quick=200000, thorough=3000000, min_nontrivial=3000),
    'P31': dict(h='prepare', quick=60000, thorough=1000000, min_nontrivial=3000),
    'P28': dict(h='binary', quick=200000, thorough=10000000, min_nontrivial=5000),
    'P06': dict(h='binary', quick=200000, thorough=10000000, min_nontrivial=5000),
    'P05': dict(h='binary', quick=50000, thorough=2000000, min_nontrivial=3000),
    'P14': dict(h='grammar', quick=4000000, thorough=40000000, min_nontrivial=3000),
    'P23': dict(h='modules', quick=260000, thorough=8000000),
    'P24': dict(h='modules', quick=400000, thorough=8000000),
    'P27': dict(h='misc', quick=4000000, thorough=80000000),
    'P20': dict(h='containers', quick=3000000, thorough=30000000),
    'P21': dict(h='containers', quick=4000000, thorough=40000000),
    'P33': dict(h='analyse', quick=110000, thorough=2500000, min_nontrivial=5000),
    'P32': dict(h='helpers', quick=8000000, thorough=200000000),
    'P22': dict(h='containers', quick=800000, thorough=20000000),
}
