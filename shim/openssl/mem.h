#pragma once
#include "openssl/base.h"
