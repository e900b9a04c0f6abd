#include "app/drivers/newtonian/main_driver.cc"
#include "harness.h"
