#pragma once
#include <folly/String.h>
