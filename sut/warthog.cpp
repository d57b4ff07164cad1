// The adapter which polls, below the same C++ interface. With SUT_PORTABLE the platform
// has nothing but the standard library.
#include <algorithm>
#include <atomic>
#include <chrono>
#include <codecvt>
#include <ctime>
#include <filesystem>
#include <functional>
#include <future>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <locale>
#include <memory>
#include <mutex>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <cstring>
#ifdef SUT_PORTABLE
#undef __linux__
#undef linux
#undef __linux
#else
#define WATER_WATCHER_USE_WARTHOG
#endif
#define SUT_CAPS 1 | 2 | 16
#include "cpp.cpp"
