#pragma once
#include "venv/env.h"
