#pragma once
#include <folly/hash/Checksum.h>
