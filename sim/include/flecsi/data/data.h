#pragma once
#include "flecsi/data/data_client.h"
