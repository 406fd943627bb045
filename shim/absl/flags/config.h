#pragma once
#include "absl/shim_all.h"
