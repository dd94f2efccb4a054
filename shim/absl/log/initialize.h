#include "absl/log/log.h"
