R = [
 ('hi-static-diis', 'C42', 'include/macis/util/diis.hpp', [('    const size_t ndiis = diis_pairs_.size();', '    static const size_t ndiis = diis_pairs_.size();')]),
 ('hi-static-cnt', 'C42', 'include/macis/util/diis.hpp', [('    const size_t ndiis = diis_pairs_.size();', '    static size_t calls = 0; ++calls;\n    const size_t ndiis = diis_pairs_.size();')]),
 ('hi-seed', 'C42', 'include/macis/util/dist_quickselect.hpp', [('g(155728)', 'g(std::chrono::steady_clock::now().time_since_epoch().count())')]),
 ('hi-global', 'C42', 'src/macis/transform.cxx', [('namespace macis {', 'namespace macis {\nnamespace { std::vector<double> work_; }\n'), ('std::vector<double> TMP(', 'work_.resize(1); std::vector<double> TMP(')]),
]
