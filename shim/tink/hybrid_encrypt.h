#include "tink/hybrid_decrypt.h"
