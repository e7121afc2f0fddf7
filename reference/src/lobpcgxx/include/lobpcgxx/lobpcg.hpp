#pragma once

#include <algorithm>
#include <functional>
#include <iostream>
#include <vector>

#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wunused-parameter"
#include <blas.hh>
#include <lapack.hh>
#pragma GCC diagnostic pop

#include "driver.hpp"
#include "simplified_interface.hpp"
