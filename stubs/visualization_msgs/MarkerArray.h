// stand-in for the ROS message
#ifndef VERIF_STUB_MARKERS
#define VERIF_STUB_MARKERS
#include <iostream>
namespace visualization_msgs { struct MarkerArray {}; }
#endif
