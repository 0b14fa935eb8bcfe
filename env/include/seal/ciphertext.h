#pragma once
#include "venv/seal.h"
