#pragma once
#include "secp256k1.h"
