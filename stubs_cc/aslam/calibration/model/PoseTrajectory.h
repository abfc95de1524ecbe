#include <aslam/calibration/standin.h>
