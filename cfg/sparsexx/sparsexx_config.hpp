#pragma once
#define SPARSEXX_ENABLE_MPI
