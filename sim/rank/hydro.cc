#include "app/drivers/hydro/main_driver.cc"
#include "harness.h"
