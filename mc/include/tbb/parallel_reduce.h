#pragma once
#include "tbb/kv_tbb.h"
