// Random workload material: headers, bodies.
#pragma once

#include "core.hpp"
#include "ref.hpp"

#include <string>
#include <vector>

namespace sim {

std::string
random_bytes(Ctx &ctx, size_t size, int alphabet);

// Header whose name has no uppercase letters. weight: 0 plain, 1 adversarial.
ref::Header
random_header(Ctx &ctx, int weight);

// Another string with the same XXH64 as `target`.
std::string
colliding(uint64_t choice, const std::string &target);

std::vector<ref::Header>
random_headers(Ctx &ctx, size_t max, int weight);

// Sizes that sit on the interesting edges (SSO, varint widths, ...).
size_t
random_size(Ctx &ctx, size_t max);

// Sizes around the powers of two a counter could be cut down to.
size_t
heavy_size(Ctx &ctx, size_t max);

// An amount that vanishes when a size is kept in too few bits.
uint64_t
alias_amount(Ctx &ctx);

// Deterministic body content: cheap, no choices consumed, position dependent.
std::string
body_bytes(uint64_t key, size_t offset, size_t size);

// The prefix of a field section without dynamic references: the base it names
// has no meaning and can be anything.
std::string
section_prefix(Ctx &ctx);

// One that needs entries of a dynamic table.
std::string
dynamic_prefix(Ctx &ctx);

ref::FieldOptions
random_field_options(Ctx &ctx);

std::string
hex(const std::string &s, size_t max = 48);

}
