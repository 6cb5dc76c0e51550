#pragma once
#include "absl/container/btree_map.h"
