// precompiled prefix: only third-party and standard headers (never the library's own)
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstring>
#include <cmath>
#include <string>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <vector>
#include <map>
#include <fstream>
#include <sstream>
#include <Eigen/Dense>
