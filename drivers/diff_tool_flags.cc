// The logging flags that abseil's own library defines for programs.
#include "absl/flags/flag.h"
ABSL_FLAG(int, stderrthreshold, 2, "");
ABSL_FLAG(int, minloglevel, 0, "");
