DS = 'include/macis/asci/determinant_search.hpp'
SO = 'include/macis/asci/determinant_sort.hpp'
R = [
 ('lt-unique-later', 'C39', DS, [('''    auto it = std::unique(uniq_alpha_wfn.begin(), uniq_alpha_wfn.end());
    uniq_alpha_wfn.erase(it, uniq_alpha_wfn.end());
  }''', '''    auto it = std::unique(uniq_alpha_wfn.begin(), uniq_alpha_wfn.end());
    uniq_alpha_wfn.erase(it, uniq_alpha_wfn.end());
    uniq_alpha_wfn.resize(std::distance(uniq_alpha_wfn.begin(), it));
  }''')]),
 ('lt-sort-moved', 'C39', SO, [('''  C = std::move(reorder_C);
''', '''  C = std::move(reorder_C);
  if(reorder_C.size() != C.size()) return;
''')]),
 ('lt-ref-growth', 'C39', 'include/macis/util/diis.hpp', [('      diis_pairs_.emplace_back(v, e);', '      if(diis_pairs_.size()) { auto& last = diis_pairs_.back(); diis_pairs_.emplace_back(v, e); std::swap(last, last); } else diis_pairs_.emplace_back(v,e);')]),
 ('lt-grow-move', 'C39', 'include/macis/asci/iteration.hpp', [('    X = std::move(X_local);', '    X = std::move(X_local);\n  if(X_local.size() != wfn.size()) throw std::runtime_error("size");')]),
 ('lt-span-before', 'C39', 'include/macis/hamiltonian_generator/impl.hpp', [("""  G_pqrs_data_ = std::vector<double>(begin(V), end(V));
""", ""), ("""  for(auto i = 0ul; i < no; ++i)
    for(auto j = 0ul; j < no; ++j)
      for(auto k = 0ul; k < no; ++k)
        for(auto l = 0ul; l < no; ++l) {
          G_pqrs_(i, j, k, l) -=""", """  G_pqrs_data_ = std::vector<double>(begin(V), end(V));
  for(auto i = 0ul; i < no; ++i)
    for(auto j = 0ul; j < no; ++j)
      for(auto k = 0ul; k < no; ++k)
        for(auto l = 0ul; l < no; ++l) {
          G_pqrs_(i, j, k, l) -=""")]),
]
