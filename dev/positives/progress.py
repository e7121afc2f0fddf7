R = [
 ('pr-fls', 'C41', 'include/macis/bitset_operations.hpp', [('''    while(ind-- > 0)
''', '''    for(ind = N - 1; ind >= 0; ind--)
''')]),
 ('pr-outer', 'C41', 'include/macis/hamiltonian_generator/impl.hpp', [('      for(auto k = 0ul; k < no; ++k)\n        for(auto l = 0ul; l < no; ++l) {\n          G_pqrs_(i', '      for(auto k = 0ul; k < no; ++i)\n        for(auto l = 0ul; l < no; ++l) {\n          G_pqrs_(i')]),
]
