#pragma once
#include <cds/init.h>
