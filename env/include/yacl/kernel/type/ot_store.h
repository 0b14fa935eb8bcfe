#pragma once
#include "venv/ot.h"
