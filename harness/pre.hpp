// Included first by every harness: keeps the C complex macro I out of the way.
#pragma once
#include <blas.hh>
#include <complex>
#include <lapack.hh>
#undef I
#include <algorithm>
#include <array>
#include <cmath>
#include <cstring>
#include <fstream>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include "mc.hpp"
