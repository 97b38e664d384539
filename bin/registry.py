A = 'within the stated bounds every execution was run on the real code; trusts the reference model in the harness, the C++ compiler and the enumeration driver; says nothing beyond the bounds'
CHECKS = {
    'P01': {'harnesses': [{'harness': 'p01_sparse.cpp', 'variant': 'asan'}], 'note': A},
    'P02': {'harnesses': [{'harness': 'p02_block.cpp', 'variant': 'asan'}], 'note': A},
    'P03': {'harnesses': [{'harness': 'p03_text.cpp', 'variant': 'plain'}], 'note': A},
    'P04': {'harnesses': [{'harness': 'p04_vec.cpp', 'variant': 'asan'}], 'note': A},
    'P05': {'harnesses': [{'harness': 'p05_dense.cpp', 'variant': 'asan'}, {'harness': 'p05_dense.cpp', 'variant': 'blas'}], 'note': A},
    'P06': {'harnesses': [{'harness': 'p06_solvers.cpp', 'variant': 'plain'}, {'harness': 'p06_solvers.cpp', 'variant': 'mkl'}], 'note': A},
    'P07': {'harnesses': [{'harness': 'p07_dofs.cpp', 'variant': 'plain'}], 'note': A},
    'P08': {'harnesses': [{'harness': 'p08_assembly.cpp', 'variant': 'plain'}], 'note': A},
    'P09': {'harnesses': [{'harness': 'p09_linear.cpp', 'variant': 'plain'}, {'harness': 'p09_linear.cpp', 'variant': 'mkl'}], 'note': A},
    'P10': {'harnesses': [{'harness': 'p10_time.cpp', 'variant': 'plain'}], 'note': A},
    'P11': {'harnesses': [{'harness': 'p11_nonlinear.cpp', 'variant': 'plain'}, {'harness': 'p11_nonlinear.cpp', 'variant': 'mkl'}], 'note': A},
    'P12': {'harnesses': [{'harness': 'p12_transient.cpp', 'variant': 'plain'}, {'harness': 'p12_transient.cpp', 'variant': 'mkl'}], 'note': A},
    'P13': {'harnesses': [{'harness': 'p13_rigid.cpp', 'variant': 'plain'}, {'harness': 'p13_rigid.cpp', 'variant': 'mkl'}], 'note': A},
    'P14': {'harnesses': [{'harness': 'p14_readers.cpp', 'variant': 'asan'}], 'note': A},
    'P15': {'harnesses': [{'harness': 'p15_renumber.cpp', 'variant': 'plain', 'programs': {'NLA3D_PROG': 'main.cpp'}}], 'note': A},
    'P16': {'harnesses': [{'harness': 'p16_vtk.cpp', 'variant': 'plain'}], 'note': A},
    'P17': {'harnesses': [{'harness': 'p17_reactions.cpp', 'variant': 'plain'}], 'note': A},
    'P18': {'harnesses': [{'harness': 'p18_materials.cpp', 'variant': 'plain'}], 'note': A},
    'P19': {'harnesses': [{'harness': 'p19_isoparam.cpp', 'variant': 'plain'}], 'note': A},
    'P20': {'harnesses': [{'harness': 'p20_elements.cpp', 'variant': 'plain'}, {'harness': 'p20_elements.cpp', 'variant': 'blas'}], 'note': A},
    'P21': {'harnesses': [{'harness': 'p21_results.cpp', 'variant': 'plain'}], 'note': A},
    'P22': {'harnesses': [{'harness': 'p22_lifecycle.cpp', 'variant': 'asan'}], 'note': A},
    'P23': {'harnesses': [{'harness': 'p23_program.cpp', 'variant': 'plain', 'programs': {'NLA3D_PROG': 'main.cpp'}}, {'harness': 'p23_program.cpp', 'variant': 'mkl', 'programs': {'NLA3D_PROG': 'main.cpp'}}], 'note': A},
    'P24': {'harnesses': [{'python': 'p24_python.py', 'variant': 'plain'}], 'note': A},
}
