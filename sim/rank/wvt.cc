#define SIM_WVT
#include "app/drivers/wvt/main_driver.cc"
#include "harness.h"
