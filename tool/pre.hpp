#include <spdlog/spdlog.h>
#include <memory>
#include <atomic>
#include <mutex>
#include <fmt/format.h>
#include <optional>
#include <vector>
#include <functional>
#include <cstdint>
#include <hwloc.h>
#include <type_traits>
#include <thread>
#include <shared_mutex>
#include <limits>
#include <boost/core/demangle.hpp>
#include <array>
#include <unordered_map>
#include <queue>
#include <list>
#include <iostream>
#include <condition_variable>
#include <unordered_set>
#include <map>
#include <boost/type_index.hpp>
#include <boost/context/continuation.hpp>
#include <bitset>
#include <algorithm>
