#pragma once
#include <folly/synchronization/RWSpinLock.h>
