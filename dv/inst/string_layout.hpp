#include "opaque.hpp"
typedef dstruct::BasicString<char, VA> S_;
