#pragma once
#include "google/protobuf/io/coded_stream.h"
