/* Third-party headers used all over libdcp: precompiled once so that each source parses quickly */
#include <libcxml/cxml.h>
#include <asdcp/AS_DCP.h>
#include <libxml++/libxml++.h>
#include <fmt/format.h>
#include <boost/algorithm/string.hpp>
#include <boost/date_time/posix_time/posix_time.hpp>
#include <boost/filesystem.hpp>
#include <boost/function.hpp>
#include <boost/optional.hpp>
#include <boost/shared_array.hpp>
#include <algorithm>
#include <array>
#include <cmath>
#include <functional>
#include <iomanip>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>
