#pragma once
#include "brpc/channel.h"
