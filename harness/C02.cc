// Segmented containers: STORAGE
// @run vector quick:steps=6,segment=3 thorough:steps=9
// @run repository quick:steps=6,segment=3 thorough:steps=8
// @run vector_filled quick:steps=3,segment=4,fill=9 thorough:steps=4,fill=12
// @run repository_filled quick:steps=3,segment=4,fill=9 thorough:steps=4,fill=12
// @run large quick:scale=34000 thorough:scale=70000
#include "segmented.h"
SX_HARNESS(vector) { run_vector(STORAGE, sx_bound("steps", 5), sx_bound("segment", 3), true); }
SX_HARNESS(repository) { run_repository(STORAGE, sx_bound("steps", 5), sx_bound("segment", 3)); }
SX_HARNESS(vector_filled) { run_vector(STORAGE, sx_bound("steps", 3), sx_bound("segment", 3), true, sx_bound("fill", 8)); }
SX_HARNESS(repository_filled) { run_repository(STORAGE, sx_bound("steps", 3), sx_bound("segment", 3), sx_bound("fill", 8)); }
SX_HARNESS(large) { run_large(STORAGE, sx_bound("scale", 34000)); }
