// stand-in for the ROS header: logging only
#ifndef VERIF_STUB_ROS
#define VERIF_STUB_ROS
#include <iostream>
#define ROS_INFO_STREAM(x) do { std::cout << x; } while (0)
#define ROS_WARN_STREAM(x) ROS_INFO_STREAM(x)
#define ROS_ERROR_STREAM(x) ROS_INFO_STREAM(x)
#define ROS_DEBUG_STREAM(x) ROS_INFO_STREAM(x)
#define ROS_INFO(...) ((void)0)
#endif
