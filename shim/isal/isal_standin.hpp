#pragma once
/// What the original leaves open: the number of lanes (1..16) and which job is finished first (0 oldest, 1 newest, 2 shortest).
namespace isal_standin { extern int lanes, order; extern unsigned long misuse; }
