// Included before a harness of another property: its cases run several at a time (--threads N).
#pragma once
#include "pace.h"
static void paced_case(mon::Worker& w, bool in) { pace::state = in ? (mon::S().seed * 1000003 + mon::u64(mon::S().caseno) * 64 + w.id) | 1 : 0; }
static const bool paced_set = (mon::pace = paced_case, true);
