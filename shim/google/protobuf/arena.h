#pragma once
#include "google/protobuf/message_rt.h"
