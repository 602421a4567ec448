#pragma once
#include "Application.h"
