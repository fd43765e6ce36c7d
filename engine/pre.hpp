// everything that does not come from /repo (precompiled once by setup), then the scalar type
#pragma once
#include <cmath>
#include <cstring>
#include <map>
#include <set>
#include <list>
#include <array>
#include <deque>
#include <mutex>
#include <thread>
#include <atomic>
#include <memory>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <iomanip>
#include <stdexcept>
#include <functional>
#include <unordered_map>
#include <condition_variable>
#include <boost/ptr_container/ptr_vector.hpp>
#include <boost/predef.h>
#include <boost/timer/timer.hpp>
#if defined(SYMBOLIC)
#include "sym.hpp"
#endif
#include <blitz/tv2fastiter.h>
#include <blitz/array.h>
#include "symblitz.hpp"
