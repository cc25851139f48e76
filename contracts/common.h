#pragma once
#include "vc.h"
#include "diagnostics.h"
#include "exceptions.h"
#include "mediafileinfo.h"
#include "progressfeedback.h"
#include <algorithm>
#include <memory>
#include <sstream>

using namespace TagParser;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

constexpr u64 maxFile = u64(1) << 62; // largest file considered (positions must stay representable)
