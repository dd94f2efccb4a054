#include "elfio/elfio.hpp"
