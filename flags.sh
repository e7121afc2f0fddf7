FL="-std=c++17 -fopenmp -DNDEBUG -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -I/verif/cfg -I/verif/stubs -I/repo/include -I/repo/src/lobpcgxx/include -I/repo/src/sparsexx/include -isystem /usr/lib/x86_64-linux-gnu/openmpi/include -isystem /usr/include/eigen3 -include /verif/stubs/prelude.hpp -Wno-everything"
