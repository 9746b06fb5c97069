#include <ndt_gslam/utils/string_tools.h>
